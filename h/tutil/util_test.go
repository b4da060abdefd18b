package tutil

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/skyobject/statutil"

	"verif/h/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

//
// U01 rolling average
//

func mean(xs []float64, n int) (m, max float64) {
	if len(xs) == 0 {
		return 0, 0
	}
	for _, x := range xs {
		max = math.Max(max, math.Abs(x))
	}
	if len(xs) > n {
		xs = xs[len(xs)-n:]
	}
	for _, x := range xs {
		m += x / float64(len(xs))
	}
	return
}

func TestU01Float(t *testing.T) {
	pbt.Check(t, "float", 4000, 60000, func(t *rapid.T, c *pbt.Case) {
		var (
			n    = rapid.IntRange(1, 12).Draw(t, "window")
			kind = rapid.SampledFrom([]string{"ints", "unit", "wide"}).Draw(t, "kind")
			gen  *rapid.Generator[float64]
			f    = statutil.NewFloat(n)
			xs   []float64
		)
		switch kind {
		case "ints":
			gen = rapid.Map(rapid.IntRange(-1000, 1000), func(i int) float64 { return float64(i) })
		case "unit":
			gen = rapid.Float64Range(0, 1)
		default:
			gen = rapid.Float64Range(-1e9, 1e9)
		}
		c.Note("window=%d", n)
		if f.Value() != 0 {
			t.Fatalf("average of nothing is %v", f.Value())
		}
		var k = rapid.IntRange(1, 3*n+6).Draw(t, "samples")
		for i := 0; i < k; i++ {
			var x = gen.Draw(t, "x")
			xs = append(xs, x)
			c.Note("%v", x)
			var (
				got       = f.Add(x)
				want, max = mean(xs, n)
				tol       = 1e-9*max*float64(len(xs)) + 1e-12
			)
			if math.Abs(got-want) > tol {
				t.Fatalf("window %d, samples %v: average %v, mean of the last is %v", n, xs, got, want)
			}
			if v := f.Value(); v != got {
				t.Fatalf("Add returned %v, Value returns %v", got, v)
			}
		}
		if k > 1 {
			c.NonTrivial()
		}
		if k > n {
			c.Class("window overflows")
		}
	})
}

func TestU01Duration(t *testing.T) {
	pbt.Check(t, "duration", 4000, 60000, func(t *rapid.T, c *pbt.Case) {
		var (
			n   = rapid.IntRange(1, 12).Draw(t, "window")
			lim = rapid.SampledFrom([]int64{20, int64(time.Second), int64(time.Hour)}).Draw(t, "scale")
			d   = statutil.NewDuration(n)
			xs  []float64
		)
		c.Note("window=%d", n)
		if d.Value() != 0 {
			t.Fatalf("average of nothing is %v", d.Value())
		}
		var k = rapid.IntRange(1, 3*n+6).Draw(t, "samples")
		for i := 0; i < k; i++ {
			var x = rapid.Int64Range(0, lim).Draw(t, "x")
			if lim == 20 { // keep the samples far from rounding of the result
				x *= 1000
			}
			xs = append(xs, float64(x))
			c.Note("%v", time.Duration(x))
			var (
				got       = d.Add(time.Duration(x))
				want, max = mean(xs, n)
				tol       = 1e-9*max*float64(len(xs)) + 2
			)
			if math.Abs(float64(got)-want) > tol {
				t.Fatalf("window %d, samples %v: average %v, mean of the last is %v", n, xs, int64(got), want)
			}
			if v := d.Value(); v != got {
				t.Fatalf("Add returned %v, Value returns %v", got, v)
			}
		}
		if k > 1 {
			c.NonTrivial()
		}
		if k > n {
			c.Class("window overflows")
		}
	})
}

// any interleaving of concurrent adds, that all fit the window,
// gives the mean of all of them
func TestU01Concurrent(t *testing.T) {
	pbt.Check(t, "concurrent", 300, 4000, func(t *rapid.T, c *pbt.Case) {
		var (
			gs  = rapid.IntRange(2, 6).Draw(t, "goroutines")
			per = rapid.IntRange(1, 20).Draw(t, "adds")
			n   = gs*per + rapid.IntRange(0, 3).Draw(t, "slack")
			f   = statutil.NewFloat(n)
			d   = statutil.NewDuration(n)
			xs  = rapid.SliceOfN(rapid.IntRange(0, 1000), gs*per, gs*per).Draw(t, "xs")
			wg  sync.WaitGroup
			sum int
		)
		c.Note("%d goroutines x %d, %v", gs, per, xs)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(xs []int) {
				defer wg.Done()
				for _, x := range xs {
					f.Add(float64(x))
					d.Add(time.Duration(x) * time.Microsecond)
					f.Value()
					d.Value()
				}
			}(xs[g*per : (g+1)*per])
		}
		wg.Wait()
		for _, x := range xs {
			sum += x
		}
		var want = float64(sum) / float64(len(xs))
		if got := f.Value(); math.Abs(got-want) > 1e-6 {
			t.Fatalf("average %v, want %v", got, want)
		}
		if got := float64(d.Value()); math.Abs(got-want*1000) > 3 {
			t.Fatalf("average %v, want %v", got, want*1000)
		}
		c.NonTrivial()
	})
}

func TestU01Start(t *testing.T) {
	pbt.Check(t, "start-time", 100, 400, func(t *rapid.T, c *pbt.Case) {
		var (
			ago = time.Duration(rapid.Int64Range(1, 1000).Draw(t, "hours ago")) * time.Hour
			d   = statutil.NewDuration(rapid.IntRange(1, 5).Draw(t, "window"))
			tp  = time.Now().Add(-ago)
			got = d.AddStartTime(tp)
			max = time.Now().Sub(tp)
		)
		c.Note("%v ago", ago)
		if got < ago-time.Microsecond || got > max+time.Microsecond {
			t.Fatalf("%v since %v ago", got, ago)
		}
		c.NonTrivial()
	})
	for _, n := range []int{0, -1, -100} {
		pbt.Enumerate("bad-window", func(c *pbt.Case) {
			for i, f := range []func(){
				func() { statutil.NewFloat(n) },
				func() { statutil.NewDuration(n) },
			} {
				func() {
					defer func() {
						if recover() == nil {
							t.Errorf("%d: window %d accepted", i, n)
						}
					}()
					f()
				}()
			}
		})
	}
}

//
// U02 human readable amounts and volumes
//

var human = regexp.MustCompile(`^([0-9]+)(\.[0-9]{1,2})?([kMGTPEZY]?)(B?)$`)

const prefixes = "kMGTPEZY"

func checkHuman(v uint32, s string, base float64, suffix string) (err error) {
	var m = human.FindStringSubmatch(s)
	if m == nil {
		return fmt.Errorf("%d: malformed %q", v, s)
	}
	if m[4] != suffix {
		return fmt.Errorf("%d: wrong suffix of %q", v, s)
	}
	if strings.HasSuffix(m[2], "0") {
		return fmt.Errorf("%d: trailing zero in %q", v, s)
	}
	if len(m[1]) > 1 && m[1][0] == '0' {
		return fmt.Errorf("%d: leading zero in %q", v, s)
	}
	var unit = 1.0
	if m[3] != "" {
		unit = math.Pow(base, float64(1+strings.Index(prefixes, m[3])))
	}
	var x, perr = strconv.ParseFloat(m[1]+m[2], 64)
	if perr != nil {
		return fmt.Errorf("%d: %q: %v", v, s, perr)
	}
	if math.Abs(x*unit-float64(v)) > 0.00501*unit {
		return fmt.Errorf("%d: %q is too far from the value", v, s)
	}
	// the largest unit that is not greater than the value
	if float64(v) < unit && unit > 1 {
		return fmt.Errorf("%d: unit of %q is too large", v, s)
	}
	if float64(v) >= unit*base {
		return fmt.Errorf("%d: unit of %q is too small", v, s)
	}
	if unit == 1 && m[2] != "" {
		return fmt.Errorf("%d: fraction of one item in %q", v, s)
	}
	return
}

func TestU02(t *testing.T) {
	var edge = []uint32{0, 1, 9, 10, 99, 100, 999, 1000, 1001, 1004, 1005, 1006, 1010, 1023, 1024, 1025,
		1029, 1030, 10000, 10240, 100000, 102400, 999994, 999995, 999999, 1000000, 1000001, 1048570,
		1048575, 1048576, 1048577, 1 << 30, 1<<30 - 1, 1<<30 + 1, 999999999, 1000000000, 1000000001,
		math.MaxUint32, math.MaxUint32 - 1}
	pbt.Check(t, "value", 60000, 2000000, func(t *rapid.T, c *pbt.Case) {
		var v uint32
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			v = rapid.SampledFrom(edge).Draw(t, "edge")
		case 1:
			v = rapid.Uint32().Draw(t, "v")
		case 2: // round values
			v = uint32(rapid.IntRange(1, 1024).Draw(t, "mantissa")) *
				rapid.SampledFrom([]uint32{1, 10, 100, 1000, 1024, 10240, 1000000, 1 << 20}).Draw(t, "unit")
		default: // around powers
			v = rapid.SampledFrom(edge).Draw(t, "edge") + uint32(rapid.IntRange(-20, 20).Draw(t, "delta"))
		}
		c.Note("%d", v)
		if err := checkHuman(v, statutil.Volume(v).String(), 1024, "B"); err != nil {
			t.Fatalf("volume %v", err)
		}
		if err := checkHuman(v, statutil.Amount(v).String(), 1000, ""); err != nil {
			t.Fatalf("amount %v", err)
		}
		if fmt.Sprint(statutil.Volume(v)) != statutil.Volume(v).String() {
			t.Fatal("Volume is not a Stringer")
		}
		if v >= 1000 {
			c.NonTrivial()
		}
	})
}

//
// L01 logger
//

type out struct {
	mx sync.Mutex
	ws []string // one element per Write
}

func (o *out) Write(p []byte) (int, error) {
	o.mx.Lock()
	defer o.mx.Unlock()
	o.ws = append(o.ws, string(p))
	return len(p), nil
}

func (o *out) take() (ws []string) {
	o.mx.Lock()
	defer o.mx.Unlock()
	ws, o.ws = o.ws, nil
	return
}

var (
	texts = []string{"", "some", "50%", "%s", "%d%%", "a\tb", "new\nline", "[ERR]", "привет", "100%!"}
	fmts  = []struct {
		f    string
		args int
	}{{"", 0}, {"plain", 0}, {"%v", 1}, {"x %s y", 1}, {"%v-%v", 2}, {"%%", 0}, {"100%% of %v", 1}, {"%v\n", 1}, {"%[2]v %[1]v", 2}}
)

func genArg() *rapid.Generator[interface{}] {
	return rapid.Custom(func(t *rapid.T) interface{} {
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			return rapid.SampledFrom(texts).Draw(t, "text")
		case 1:
			return rapid.IntRange(-5, 1000).Draw(t, "int")
		case 2:
			return errors.New(rapid.SampledFrom(texts).Draw(t, "err"))
		case 3:
			return rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "bytes")
		default:
			return nil
		}
	})
}

func genErr() *rapid.Generator[error] {
	return rapid.Map(rapid.SampledFrom(texts), func(s string) error { return errors.New("e " + s) })
}

func genPin() *rapid.Generator[log.Pin] {
	return rapid.Custom(func(t *rapid.T) log.Pin {
		switch rapid.IntRange(0, 4).Draw(t, "pin kind") {
		case 0:
			return log.All
		case 1:
			return log.No
		case 2:
			return 1 << uint(rapid.IntRange(0, 63).Draw(t, "bit"))
		case 3:
			return 1<<uint(rapid.IntRange(0, 4).Draw(t, "bit 1")) | 1<<uint(rapid.IntRange(0, 4).Draw(t, "bit 2"))
		default:
			return log.Pin(rapid.UintRange(0, 31).Draw(t, "mask"))
		}
	})
}

func nl(s string) string {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		return s + "\n"
	}
	return s
}

func TestL01(t *testing.T) {
	pbt.Check(t, "sequence", 6000, 80000, func(t *rapid.T, c *pbt.Case) {
		var (
			conf   = log.NewConfig()
			o      = new(out)
			prefix = rapid.SampledFrom([]string{"", "[node] ", "p", "%s "}).Draw(t, "prefix")
		)
		if conf.Prefix != log.Prefix || conf.Debug != log.Debug || conf.Pins != log.All {
			t.Fatal("wrong defaults")
		}
		conf.Prefix = prefix
		conf.Debug = rapid.Bool().Draw(t, "debug")
		conf.Pins = genPin().Draw(t, "pins")
		conf.Output = o
		var l = log.NewLogger(conf)
		l.SetFlags(0)
		var pins = conf.Pins
		if !conf.Debug {
			pins = log.No
		}
		c.Note("debug=%v pins=%x", conf.Debug, uint(conf.Pins))
		if l.Pins() != pins {
			t.Fatalf("pins of the logger are %x, want %x", uint(l.Pins()), uint(pins))
		}
		var shown, hidden bool
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "calls"); i < n; i++ {
			var (
				args = rapid.SliceOfN(genArg(), 0, 3).Draw(t, "args")
				keep = append([]interface{}{}, args...)
				fa   = rapid.SampledFrom(fmts).Draw(t, "format")
				pin  = genPin().Draw(t, "pin")
				err  = genErr().Draw(t, "err")
				want []string
				op   = rapid.SampledFrom([]string{"Print", "Println", "Printf", "Debug", "Debugln", "Debugf",
					"Error", "Errorln", "Errorf", "Panic", "Panicf", "SetPrefix", "SetOutput"}).Draw(t, "op")
			)
			var fargs = make([]interface{}, fa.args)
			for k := range fargs {
				fargs[k] = genArg().Draw(t, "farg")
			}
			c.Note("%s(%x)", op, uint(pin))
			var dbg = pin&pins != 0
			if strings.HasPrefix(op, "Debug") {
				if dbg {
					shown = true
				} else {
					hidden = true
				}
			}
			switch op {
			case "Print":
				l.Print(args...)
				want = []string{nl(prefix + fmt.Sprint(keep...))}
			case "Println":
				l.Println(args...)
				want = []string{nl(prefix + fmt.Sprintln(keep...))}
			case "Printf":
				l.Printf(fa.f, fargs...)
				want = []string{nl(prefix + fmt.Sprintf(fa.f, fargs...))}
			case "Debug":
				l.Debug(pin, args...)
				if dbg {
					want = []string{nl(prefix + "[DBG] " + fmt.Sprint(keep...))}
				}
			case "Debugln":
				l.Debugln(pin, args...)
				if dbg {
					want = []string{nl(prefix + "[DBG] " + fmt.Sprintln(keep...))}
					if len(keep) == 0 {
						want = []string{prefix + "[DBG]\n"}
					}
				}
			case "Debugf":
				l.Debugf(pin, fa.f, fargs...)
				if dbg {
					want = []string{nl(prefix + "[DBG] " + fmt.Sprintf(fa.f, fargs...))}
				}
			case "Error":
				l.Error(err, args...)
				want = []string{nl(prefix + "[ERR] err=" + err.Error() + " " + fmt.Sprint(keep...))}
			case "Errorln":
				l.Errorln(err, args...)
				want = []string{nl(prefix + "[ERR] err=" + err.Error() + " " + fmt.Sprintln(keep...))}
			case "Errorf":
				l.Errorf(err, fa.f, fargs...)
				want = []string{nl(prefix + "[ERR] err=" + err.Error() + " " + fmt.Sprintf(fa.f, fargs...))}
			case "Panic", "Panicf":
				var pv interface{}
				func() {
					defer func() { pv = recover() }()
					if op == "Panic" {
						l.Panic(args...)
					} else {
						l.Panicf(fa.f, fargs...)
					}
				}()
				var text = fmt.Sprint(keep...)
				if op == "Panicf" {
					text = fmt.Sprintf(fa.f, fargs...)
				}
				if pv != text {
					t.Fatalf("%s panics with %v, want %q", op, pv, text)
				}
				want = []string{nl(prefix + text)}
			case "SetPrefix":
				prefix = rapid.SampledFrom([]string{"", "q ", "%d"}).Draw(t, "prefix")
				l.SetPrefix(prefix)
			case "SetOutput":
				l.SetOutput(io.Discard)
				l.Print("discarded")
				l.Error(err, "discarded")
				l.Debug(log.All, "discarded")
				l.SetOutput(o)
			}
			var got = o.take()
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				t.Fatalf("%s pin=%x pins=%x debug=%v args=%q format=%q: got %q, want %q",
					op, uint(pin), uint(conf.Pins), conf.Debug, fmt.Sprint(keep...), fa.f, got, want)
			}
			for k := range keep {
				if fmt.Sprint(keep[k]) != fmt.Sprint(args[k]) {
					t.Fatalf("%s changes arguments of caller", op)
				}
			}
		}
		if shown && hidden {
			c.Class("shown and hidden")
		}
		if shown || hidden {
			c.NonTrivial()
		}
	})
}

// by default a message is marked with the line that logs it
func TestL01CallSite(t *testing.T) {
	pbt.Check(t, "call-site", 300, 2000, func(t *rapid.T, c *pbt.Case) {
		var (
			buf  bytes.Buffer
			conf = log.NewConfig()
			op   = rapid.SampledFrom([]string{"Print", "Debug", "Debugln", "Debugf", "Error", "Errorln", "Errorf"}).Draw(t, "op")
			pre  = rapid.SampledFrom([]string{"", "[x] "}).Draw(t, "prefix")
			err  = errors.New("x")
			line int
		)
		conf.Debug = true
		conf.Prefix = pre
		conf.Output = &buf
		var l = log.NewLogger(conf)
		switch op {
		case "Print":
			_, _, line, _ = runtime.Caller(0)
			l.Print("msg")
		case "Debug":
			_, _, line, _ = runtime.Caller(0)
			l.Debug(1, "msg")
		case "Debugln":
			_, _, line, _ = runtime.Caller(0)
			l.Debugln(1, "msg")
		case "Debugf":
			_, _, line, _ = runtime.Caller(0)
			l.Debugf(1, "%s", "msg")
		case "Error":
			_, _, line, _ = runtime.Caller(0)
			l.Error(err, "msg")
		case "Errorln":
			_, _, line, _ = runtime.Caller(0)
			l.Errorln(err, "msg")
		case "Errorf":
			_, _, line, _ = runtime.Caller(0)
			l.Errorf(err, "%s", "msg")
		}
		var (
			got = buf.String()
			rx  = regexp.MustCompile(`^` + regexp.QuoteMeta(pre) + `\d\d:\d\d:\d\d util_test.go:` +
				strconv.Itoa(line+1) + `: .*msg\n$`)
		)
		c.Note("%s at line %d", op, line+1)
		if !rx.MatchString(got) {
			t.Fatalf("%s: %q, called at line %d", op, got, line+1)
		}
		c.NonTrivial()
	})
}

// messages of concurrent goroutines are never mixed or lost
func TestL01Concurrent(t *testing.T) {
	pbt.Check(t, "concurrent", 200, 2000, func(t *rapid.T, c *pbt.Case) {
		var (
			o    = new(out)
			conf = log.NewConfig()
			gs   = rapid.IntRange(2, 6).Draw(t, "goroutines")
			per  = rapid.IntRange(1, 10).Draw(t, "messages")
			wg   sync.WaitGroup
			want = map[string]int{}
		)
		conf.Debug = true
		conf.Pins = 2
		conf.Output = o
		conf.Prefix = "p "
		var l = log.NewLogger(conf)
		l.SetFlags(0)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			for i := 0; i < per; i++ {
				want[fmt.Sprintf("p [DBG] %d %d\n", g, i)]++
				want[fmt.Sprintf("p [ERR] err=e%d %d\n", g, i)]++
				want[fmt.Sprintf("p %d-%d\n", g, i)]++
			}
			go func(g int) {
				defer wg.Done()
				var err = fmt.Errorf("e%d", g)
				for i := 0; i < per; i++ {
					l.Debugln(3, g, i)
					l.Debugln(1, g, i) // hidden
					l.Error(err, i)
					l.Printf("%d-%d", g, i)
				}
			}(g)
		}
		wg.Wait()
		c.Note("%d goroutines x %d", gs, per)
		for _, s := range o.take() {
			want[s]--
		}
		for s, n := range want {
			if n != 0 {
				t.Fatalf("%q: %+d", s, -n)
			}
		}
		c.NonTrivial()
	})
}

// command line flags set what they name
func TestL01Flags(t *testing.T) {
	pbt.Check(t, "flags", 2000, 20000, func(t *rapid.T, c *pbt.Case) {
		var (
			conf = log.NewConfig()
			def  = conf
			args []string
		)
		if rapid.Bool().Draw(t, "custom defaults") {
			conf.Pins = genPin().Draw(t, "default pins")
			conf.Prefix = "dflt"
			def = conf
		}
		var save = flag.CommandLine
		defer func() { flag.CommandLine = save }()
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		flag.CommandLine.SetOutput(io.Discard)
		conf.FromFlags()
		if rapid.Bool().Draw(t, "set prefix") {
			def.Prefix = rapid.SampledFrom([]string{"", "a", "[b] "}).Draw(t, "prefix")
			args = append(args, "-log-prefix="+def.Prefix)
		}
		if rapid.Bool().Draw(t, "set debug") {
			def.Debug = rapid.Bool().Draw(t, "debug")
			args = append(args, fmt.Sprintf("-debug=%v", def.Debug))
		}
		if rapid.Bool().Draw(t, "set pins") {
			def.Pins = genPin().Draw(t, "pins")
			args = append(args, fmt.Sprintf("-debug-pins=%d", uint(def.Pins)))
			c.NonTrivial()
		}
		c.Note("%v", args)
		if err := flag.CommandLine.Parse(args); err != nil {
			t.Fatalf("%v: %v", args, err)
		}
		if conf != def {
			t.Fatalf("%v gives %+v, want %+v", args, conf, def)
		}
	})
}

// without an output messages go to the standard error output
func TestL01DefaultOutput(t *testing.T) {
	pbt.Check(t, "default output", 100, 1000, func(t *rapid.T, c *pbt.Case) {
		var f, err = os.CreateTemp(os.Getenv("PBT_SCRATCH"), "stderr")
		if err != nil {
			pbt.Infra(err)
		}
		defer os.Remove(f.Name())
		defer f.Close()
		var (
			conf   = log.NewConfig()
			stderr = os.Stderr
			want   string
		)
		conf.Debug = rapid.Bool().Draw(t, "debug")
		os.Stderr = f
		var l = log.NewLogger(conf)
		os.Stderr = stderr
		l.SetFlags(0)
		for i := rapid.IntRange(1, 8).Draw(t, "messages"); i > 0; i-- {
			var pin = genPin().Draw(t, "pin")
			if rapid.Bool().Draw(t, "debug message") {
				l.Debug(pin, i)
				if conf.Debug && pin != 0 {
					want += fmt.Sprintf("[DBG] %d\n", i)
				}
			} else {
				l.Println(i)
				want += fmt.Sprintf("%d\n", i)
			}
		}
		got, err := os.ReadFile(f.Name())
		if err != nil {
			pbt.Infra(err)
		}
		c.Note("debug %v %q", conf.Debug, want)
		if string(got) != want {
			t.Fatalf("printed %q, want %q", got, want)
		}
		if conf.Debug {
			c.NonTrivial()
		}
	})
}
