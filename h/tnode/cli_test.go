package tnode

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// program built from cmd of the repository
func program(name string) string {
	var p = filepath.Join(os.Getenv("PBT_BIN"), name)
	if _, err := os.Stat(p); err != nil {
		pbt.Infra(err)
	}
	return p
}

// all commands of the CLI
var cliCommands = []string{
	"share feed", "don't share feed", "list feeds", "is shareing",
	"tcp connect", "tcp disconnect", "tcp subsribe", "tcp unsubscribe", "tcp address",
	"udp connect", "udp disconnect", "udp subsribe", "udp unsubscribe", "udp address",
	"connections", "connections of feed",
	"root info", "root tree", "last root",
	"stat", "help", "quit", "exit",
}

// arguments of the commands
var cliArgs = map[string]string{
	"share feed": "f", "don't share feed": "f", "is shareing": "f",
	"tcp connect": "a", "tcp disconnect": "a", "tcp subsribe": "af", "tcp unsubscribe": "af",
	"udp connect": "a", "udp disconnect": "a", "udp subsribe": "af", "udp unsubscribe": "af",
	"connections of feed": "f", "root info": "fnn", "root tree": "fnn", "last root": "f",
}

// cli controls a node by the program, by a process per command or in a session
type cli struct {
	t    failer
	addr string
	home string
	s    *session
	said []string // in the session
	past []string // history file before the session
}

type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out chan []byte
	buf []byte
}

// answer of the CLI
type answer struct {
	out, err string
	code     int
	session  bool // then the err is in the out
}

func cliEnv(home string) (env []string) {
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "HOME=") {
			env = append(env, e)
		}
	}
	return append(env, "HOME="+home)
}

func newCLI(t failer, addr string) (c *cli) {
	var home, err = os.MkdirTemp(pbt.Scratch(), "cli")
	if err == nil {
		err = os.MkdirAll(filepath.Join(home, ".skycoin", "cxo"), 0700)
	}
	if err != nil {
		pbt.Infra(err)
	}
	return &cli{t: t, addr: addr, home: home}
}

func (c *cli) stop() {
	if c.s != nil {
		c.s.cmd.Process.Kill()
		c.s.cmd.Wait()
	}
	os.RemoveAll(c.home)
}

// run a process
func (c *cli) run(args ...string) (a answer) {
	var cmd = exec.Command(program("cxocli"), args...)
	var out, errb bytes.Buffer
	cmd.Env, cmd.Dir, cmd.Stdout, cmd.Stderr = cliEnv(c.home), c.home, &out, &errb
	if err := cmd.Start(); err != nil {
		pbt.Infra(err)
	}
	pbt.Within(patience, fmt.Sprintf("cxocli %q", args), func() { cmd.Wait() })
	return answer{out: out.String(), err: errb.String(), code: cmd.ProcessState.ExitCode()}
}

func (c *cli) history() (hs []string) {
	var b, err = os.ReadFile(filepath.Join(c.home, ".skycoin", "cxo", ".cxocli.history"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			hs = append(hs, l)
		}
	}
	return
}

func (c *cli) open() {
	var cmd = exec.Command(program("cxocli"), "-a", c.addr)
	var in, err = cmd.StdinPipe()
	if err != nil {
		pbt.Infra(err)
	}
	r, w, err := os.Pipe()
	if err != nil {
		pbt.Infra(err)
	}
	cmd.Env, cmd.Dir, cmd.Stdout, cmd.Stderr = cliEnv(c.home), c.home, w, w
	c.past, c.said = c.history(), nil
	if err = cmd.Start(); err != nil {
		pbt.Infra(err)
	}
	w.Close()
	var s = &session{cmd: cmd, in: in, out: make(chan []byte, 16)}
	go func() {
		defer close(s.out)
		defer r.Close()
		for {
			var b = make([]byte, 4096)
			var n, err = r.Read(b)
			if n > 0 {
				s.out <- b[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	c.s = s
	c.prompt()
}

// prompt waits for the next prompt
func (c *cli) prompt() (out string) {
	var dl = time.After(patience)
	for {
		if b := c.s.buf; string(b) == "> " || bytes.HasSuffix(b, []byte("\n> ")) {
			out = string(b[:len(b)-2])
			c.s.buf = nil
			return
		}
		select {
		case b, ok := <-c.s.out:
			if !ok {
				c.t.Fatalf("the session has ended: %q", c.s.buf)
			}
			c.s.buf = append(c.s.buf, b...)
		case <-dl:
			c.t.Fatalf("no prompt: %q", c.s.buf)
		}
	}
}

// do a command
func (c *cli) do(cmd string) (a answer) {
	if c.s == nil {
		return c.run("-a", c.addr, "-e", cmd)
	}
	io.WriteString(c.s.in, cmd+"\n")
	if n := len(c.said); n == 0 || c.said[n-1] != cmd {
		c.said = append(c.said, cmd)
	}
	return answer{out: c.prompt(), session: true}
}

// leave the session
func (c *cli) leave(cmd string) {
	io.WriteString(c.s.in, cmd+"\n"+"share feed nothing\n")
	c.s.in.Close()
	var dl = time.After(patience)
	for ok := true; ok; {
		var b []byte
		select {
		case b, ok = <-c.s.out:
			c.s.buf = append(c.s.buf, b...)
		case <-dl:
			c.t.Fatalf("%s: the session doesn't end", cmd)
		}
	}
	c.s.cmd.Wait()
	if code := c.s.cmd.ProcessState.ExitCode(); code != 0 {
		c.t.Fatalf("%s: exit code %d: %q", cmd, code, c.s.buf)
	}
	if strings.Contains(string(c.s.buf), "> ") || strings.Contains(string(c.s.buf), "error") {
		c.t.Fatalf("%s: %q", cmd, c.s.buf)
	}
	c.s = nil
	var hs []string
	for _, h := range c.history() {
		if h != "quit" && h != "exit" {
			hs = append(hs, h)
		}
	}
	var want = append([]string(nil), c.past...)
	for _, s := range c.said {
		if n := len(want); n == 0 || want[n-1] != s {
			want = append(want, s)
		}
	}
	if g, w := strings.Join(hs, "\n"), strings.Join(want, "\n"); g != w {
		c.t.Fatalf("history of the CLI\n%s\nexpected\n%s", g, w)
	}
}

// result of a command without output
func (w *world) result(a answer) string {
	if a.session {
		if a.out == "" {
			return "ok"
		}
		return w.canon(strings.TrimSpace(a.out))
	}
	if a.code == 0 && a.out == "" && a.err == "" {
		return "ok"
	}
	if a.code == 1 && a.out == "" && strings.TrimSpace(a.err) != "" {
		return w.canon(strings.TrimSpace(a.err))
	}
	return fmt.Sprintf("exit code %d, output %q, error %q", a.code, a.out, a.err)
}

// lines of output of a command that doesn't fail
func (c *cli) lines(cmd string) (ls []string) {
	var a = c.do(cmd)
	if a.code != 0 || a.err != "" {
		c.t.Fatalf("%s: exit code %d, error %q", cmd, a.code, a.err)
	}
	for _, l := range strings.Split(a.out, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			ls = append(ls, l)
		}
	}
	return
}

// noisy is a command with random spaces between and after the arguments
func noisy(t *rapid.T, cmd string, args ...string) string {
	var sp = rapid.SampledFrom([]string{" ", " ", " ", "  ", " \t"})
	for _, a := range args {
		cmd += sp.Draw(t, "space") + a
	}
	if rapid.IntRange(0, 5).Draw(t, "tail") == 0 {
		cmd += " "
	}
	return cmd
}

// wrong is a command that can't be executed
func wrong(t *rapid.T) string {
	var pk = keys[rapid.SampledFrom([]int{1, 3}).Draw(t, "feed")].pk.Hex()
	var cmd = rapid.SampledFrom(cliCommands[:len(cliCommands)-3]).Draw(t, "command")
	var kinds = cliArgs[cmd]
	var args []string
	for _, k := range kinds {
		args = append(args, map[rune]string{'f': pk, 'a': "10.9.9.9:1", 'n': "0"}[k])
	}
	switch k := rapid.IntRange(0, 5).Draw(t, "wrong"); {
	case k == 0:
		return rapid.SampledFrom([]string{"x", "share", "sharefeed", "feeds", "Stat", " stat", "root", "tcp", "udp conect",
			"connections o", "list", "-", "don't", "tcp feeds", "stat.", "is sharing " + pk, "last  root " + pk}).Draw(t, "unknown")
	case k == 1:
		cmd = cmd[:rapid.IntRange(1, len(cmd)-1).Draw(t, "part")]
		for _, c := range cliCommands {
			if strings.TrimSpace(cmd) == c {
				return cmd + " x y z t"
			}
		}
		return cmd
	case k == 2:
		return noisy(t, cmd, append(args, rapid.SampledFrom([]string{"x", "0", pk}).Draw(t, "extra"))...)
	case k == 3 && len(args) > 0:
		return noisy(t, cmd, args[:rapid.IntRange(0, len(args)-1).Draw(t, "left")]...)
	default:
		for i, k := range kinds {
			switch {
			case k == 'f':
				args[i] = rapid.SampledFrom([]string{"x", pk[1:], pk[2:], pk + "00", pk[:64] + "zz", "0x" + pk[2:], "00"}).Draw(t, "not a key")
			case k == 'n' && rapid.Bool().Draw(t, "number"):
				args[0] = pk
				args[i] = rapid.SampledFrom([]string{"-1", "x", "1.0", "18446744073709551616", "0x1", "1e3"}).Draw(t, "not a number")
				return noisy(t, cmd, args...)
			}
		}
		if strings.Contains(kinds, "f") {
			return noisy(t, cmd, args...)
		}
		return noisy(t, cmd, append(args, "x")...)
	}
}

var rootField = regexp.MustCompile(`^(root|refs|descriptor|registry|feed|nonce|seq|time|sig|prev):?\s+(.*)$`)

func (w *world) cliRoot(c *cli, cmd string, r *registry.Root, rerr error) {
	if rerr != nil {
		if g := w.result(c.do(cmd)); g != w.err(rerr) {
			c.t.Fatalf("%s: CLI %q, local %q", cmd, g, w.err(rerr))
		}
		return
	}
	var got = map[string]string{}
	for _, l := range c.lines(cmd) {
		if m := rootField.FindStringSubmatch(l); m != nil {
			got[m[1]] = m[2]
		}
	}
	for k, v := range map[string]string{
		"root":       r.Hash.Hex(),
		"descriptor": strconv.Quote(string(r.Descriptor)),
		"registry":   r.Reg.String(),
		"feed":       r.Pub.Hex(),
		"nonce":      fmt.Sprint(r.Nonce),
		"seq":        fmt.Sprint(r.Seq),
		"time":       time.Unix(0, r.Time).String(),
		"sig":        r.Sig.Hex(),
		"prev":       r.Prev.Hex(),
	} {
		if got[k] != v {
			c.t.Fatalf("%s: %s is %q, expected %q", cmd, k, got[k], v)
		}
	}
	var left = got["refs"]
	for _, d := range r.Refs {
		var i = strings.Index(left, d.Short())
		if i < 0 {
			c.t.Fatalf("%s: refs %s, no %s", cmd, got["refs"], d.Short())
		}
		left = left[i+len(d.Short()):]
	}
}

// cliStat is what the CLI tells about feeds and objects
func cliStat(ls []string) string {
	var facts []string
	var pk, nonce, which, h string
	var isHex = regexp.MustCompile(`^[0-9a-f]{66}$`)
	var isNum = regexp.MustCompile(`^[0-9]+$`)
	for _, l := range ls {
		switch {
		case strings.HasPrefix(l, "amount of") || strings.HasPrefix(l, "volume of"):
			facts = append(facts, strings.Join(strings.Fields(l), " "))
		case isHex.MatchString(l):
			pk = l
			facts = append(facts, pk)
		case isNum.MatchString(l):
			nonce = l
			facts = append(facts, pk+" "+nonce)
		case strings.HasPrefix(l, "first"), strings.HasPrefix(l, "last"):
			which = strings.Fields(l)[0]
		case strings.HasPrefix(l, "hash:"):
			h = strings.TrimSpace(l[5:])
		case strings.HasPrefix(l, "seq:"):
			facts = append(facts, fmt.Sprintf("%s %s %s %s %s", pk, nonce, which, h, strings.TrimSpace(l[4:])))
		}
	}
	return sorted(facts)
}

func localStat(s *node.Stat) string {
	var facts []string
	for name, o := range map[string]skyobject.ObjectsStat{"cached": s.CacheObjects, "all": s.AllObjects, "used": s.UsedObjects} {
		facts = append(facts, "amount of "+name+" objects: "+o.Amount.String(), "volume of "+name+" objects: "+o.Volume.String())
	}
	for pk, f := range s.Feeds {
		facts = append(facts, pk.Hex())
		for nonce, h := range f.Heads {
			var head = fmt.Sprintf("%s %d", pk.Hex(), nonce)
			facts = append(facts, head)
			if h.Len > 1 {
				facts = append(facts, fmt.Sprintf("%s first %s %d", head, h.First.Hash.Hex(), h.First.Seq))
			}
			if h.Len > 0 {
				facts = append(facts, fmt.Sprintf("%s last %s %d", head, h.Last.Hash.Hex(), h.Last.Seq))
			}
		}
	}
	return sorted(facts)
}

// cliStat compares the statistic
func (w *world) cliStat(c *cli) {
	eventually(c.t, "stat", func() string {
		if g, l := cliStat(c.lines("stat")), localStat(w.x.n.Stat()); g != l {
			return fmt.Sprintf("stat: CLI %s, local %s", g, l)
		}
		return ""
	})
}

// cliReads compares what the CLI shows with the node
func (w *world) cliReads(t *rapid.T, c *cli) {
	var n = w.x.n
	var is = func(cmd, empty string, got, want []string) {
		if len(want) == 0 {
			want = []string{empty}
		}
		if g, l := sorted(got), sorted(want); g != l {
			t.Fatalf("%s: CLI %q, local %q", cmd, g, l)
		}
	}
	var what = rapid.IntRange(0, 6).Draw(t, "read")
	if mc := n.Config().MaxConnections; (what == 2 || what == 3) && mc <= 0 && rapid.Bool().Draw(t, "many") {
		// more connections, for a while
		var ps []*rawPeer
		var before = len(n.Connections())
		for k := rapid.IntRange(1, 4).Draw(t, "more connections"); k > 0; k-- {
			var p, err = dial(w.x.addr)
			if err != nil {
				t.Fatalf("dial: %v", err)
			}
			if _, err = p.shake(); err != nil {
				t.Fatalf("handshake: %v", err)
			}
			p.loop()
			for f := 0; f < 3; f++ {
				if rapid.Bool().Draw(t, "subscribed") {
					var seq = p.send(0, &msg.Sub{Feed: keys[f].pk})
					eventually(t, "answer", func() string {
						if _, ok := p.find(func(in rawMsg) bool { return in.rseq == seq }); !ok {
							return "no"
						}
						return ""
					})
				}
			}
			ps = append(ps, p)
		}
		var are = func(want int) {
			eventually(t, "connections", func() string {
				if got := len(n.Connections()); got != want {
					return fmt.Sprintf("%d, want %d", got, want)
				}
				return ""
			})
		}
		are(before + len(ps))
		defer are(before)
		for _, p := range ps {
			defer p.close()
		}
	}
	switch what {
	case 0:
		var want []string
		for _, pk := range n.Feeds() {
			want = append(want, "- "+pk.Hex())
		}
		is("list feeds", "no feeds are shared", c.lines("list feeds"), want)
	case 1:
		var pk = keys[rapid.IntRange(0, 3).Draw(t, "feed")].pk
		var want = "no, it is not"
		if n.IsSharing(pk) {
			want = "yes, it is"
		}
		is("is shareing", "", c.lines(noisy(t, "is shareing", pk.Hex())), []string{want})
	case 2:
		var want []string
		for _, cn := range n.Connections() {
			want = append(want, cn.String()+"(✓)")
		}
		is("connections", "no connections", c.lines("connections"), want)
	case 3:
		var pk = keys[rapid.IntRange(0, 3).Draw(t, "feed")].pk
		var want []string
		for _, cn := range n.ConnectionsOfFeed(pk) {
			want = append(want, cn.String())
		}
		is("connections of feed", "no connections", c.lines(noisy(t, "connections of feed", pk.Hex())), want)
	case 4:
		is("tcp address", "", c.lines("tcp address"), []string{w.x.addr})
		is("udp address", "", c.lines("udp address"), []string{w.x.udp})
	case 5:
		w.cliStat(c)
	case 6:
		var help = c.lines("help")
		for _, cmd := range cliCommands {
			var found bool
			for _, h := range help {
				found = found || h == cmd || strings.HasPrefix(h, cmd+" <") ||
					h == "quit or exit" && (cmd == "quit" || cmd == "exit")
			}
			if !found {
				t.Fatalf("help says nothing of %q", cmd)
			}
		}
	}
}

// completion of the beginning of a command
func (c *cli) completion(t *rapid.T) {
	var cmd = rapid.SampledFrom(cliCommands).Draw(t, "command")
	cmd = cmd[:rapid.IntRange(0, len(cmd)).Draw(t, "part")]
	var line = cmd
	if rapid.IntRange(0, 3).Draw(t, "upper case") == 0 {
		line = strings.ToUpper(cmd)
	}
	io.WriteString(c.s.in, line+"\t\n")
	var out = c.do("help").out
	var got, want []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "\t") {
			got = append(got, strings.TrimSpace(l))
		}
	}
	for _, k := range cliCommands {
		if strings.HasPrefix(k, cmd) {
			want = append(want, k)
		}
	}
	if g, w := sorted(got), sorted(want); g != w {
		t.Fatalf("completion of %q: %s, expected %s", line, g, w)
	}
}

// TestC02 compares a node controlled by the CLI with one controlled locally
func TestC02(t *testing.T) {
	pbt.Check(t, "twin by CLI", 300, 6000, func(t *rapid.T, c *pbt.Case) {
		var share []int
		for f := 0; f < 3; f++ {
			if rapid.Bool().Draw(t, "peer shares") {
				share = append(share, f)
			}
		}
		var maxConns = rapid.IntRange(0, 2).Draw(t, "max connections")
		var change = func(conf *node.Config) { conf.MaxConnections = maxConns }
		var ws = []*world{newWorld(t, true, share, change), newWorld(t, false, share, change)}
		defer ws[0].stop()
		defer ws[1].stop()
		var a = ws[0]
		var cl = newCLI(t, a.x.n.Config().RPC)
		defer cl.stop()
		var names = map[int]string{opShare: "share feed", opDontShare: "don't share feed", opConnect: "connect",
			opDisconnect: "disconnect", opSubscribe: "subsribe", opUnsubscribe: "unsubscribe"}
		var p = newPool()
		var own *owner
		var nonces = rapid.SampledFrom([]uint64{0, 1, 1, 10, 1<<63 + 9, 1<<64 - 1})
		var ok, failed int
		for k := rapid.IntRange(1, 16).Draw(t, "ops"); k > 0; k-- {
			switch op := rapid.IntRange(0, 2*opMax+8).Draw(t, "op"); op {
			case 2 * opMax, 2*opMax + 7, 2*opMax + 8:
				// roots
				if own == nil {
					own = newOwner(t, a.x, keys[3])
					if err := ws[1].x.n.Share(keys[3].pk); err != nil {
						t.Fatalf("share: %v", err)
					}
				}
				if !a.x.n.IsSharing(keys[3].pk) {
					break
				}
				for m := rapid.IntRange(1, 3).Draw(t, "save"); m > 0; m-- {
					var refs []registry.Dynamic
					if rapid.IntRange(0, 3).Draw(t, "empty") > 0 {
						refs = drawRefs(t, p, 2)
					}
					var nonce = nonces.Filter(func(n uint64) bool { return n != 0 }).Draw(t, "head")
					if o, ok := own.roots[nonce]; ok && rapid.Bool().Draw(t, "descriptor") {
						o.Descriptor = []byte(rapid.StringN(0, 9, 20).Draw(t, "text"))
					}
					own.save(t, p, nonce, refs)
				}
				var pk = keys[rapid.SampledFrom([]int{3, 3, 3, 0}).Draw(t, "feed")].pk
				var nonce, seq = nonces.Draw(t, "nonce"), uint64(rapid.IntRange(0, 4).Draw(t, "seq"))
				if rapid.IntRange(0, 9).Draw(t, "far") == 0 {
					seq = 1<<64 - 1 - seq
				}
				var co = a.x.n.Container()
				var args = []string{pk.Hex(), fmt.Sprint(nonce), fmt.Sprint(seq)}
				for i := 1; i < 3; i++ {
					if rapid.IntRange(0, 5).Draw(t, "zero") == 0 {
						args[i] = "0" + args[i]
					}
				}
				var r, err = co.Root(pk, nonce, seq)
				a.cliRoot(cl, noisy(t, "root info", args...), r, err)
				if cmd := noisy(t, "root tree", args...); err != nil {
					if g := a.result(cl.do(cmd)); g != a.err(err) {
						t.Fatalf("%s: CLI %q, local %q", cmd, g, a.err(err))
					}
				} else {
					var pack, err = co.Pack(r, nil)
					if err != nil {
						t.Fatalf("pack: %v", err)
					}
					var tree string
					if tree, err = r.Tree(pack); err != nil {
						t.Fatalf("tree: %v", err)
					}
					var g = strings.TrimSpace(cl.do(cmd).out)
					if g != strings.TrimSpace(tree) {
						t.Fatalf("%s:\n%s\nlocal\n%s", cmd, g, tree)
					}
				}
				r, err = co.LastRoot(pk, co.ActiveHead(pk))
				a.cliRoot(cl, noisy(t, "last root", pk.Hex()), r, err)
				c.Note("roots")
				if l, e := co.LastRoot(keys[3].pk, nonce); e == nil && l.Seq > 0 && rapid.Bool().Draw(t, "delete") {
					c.Note("delete a root")
					for seq := uint64(0); seq < l.Seq; seq++ {
						if e = co.DelRoot(keys[3].pk, nonce, seq); e == nil {
							break
						}
					}
				}
				if rapid.Bool().Draw(t, "stat") {
					a.cliStat(cl)
				}
			case 2*opMax + 1, 2*opMax + 2:
				a.cliReads(t, cl)
			case 2*opMax + 3, 2*opMax + 4:
				var cmd = wrong(t)
				c.Note("%q", cmd)
				var res = a.result(cl.do(cmd))
				if res == "ok" || strings.HasPrefix(res, "exit code") {
					t.Fatalf("%q: %s", cmd, res)
				}
				failed++
			case 2*opMax + 5:
				if cl.s == nil {
					c.Note("session")
					cl.open()
				} else {
					cl.leave(rapid.SampledFrom([]string{"quit", "exit", "quit ", "exit "}).Draw(t, "leave"))
				}
			case 2*opMax + 6:
				if cl.s != nil {
					cl.completion(t)
				}
			default:
				if op %= opMax; op == opRemoteFeeds {
					op = opShare
				}
				var pk = keys[rapid.IntRange(0, 2).Draw(t, "feed")].pk
				var addr = rapid.SampledFrom([]int{0, 0, 0, 0, 1}).Draw(t, "address")
				var tcp = rapid.Bool().Draw(t, "tcp")
				var cmd = names[op]
				var args []string
				if op != opShare && op != opDontShare {
					cmd = map[bool]string{true: "tcp ", false: "udp "}[tcp] + cmd
					args = append(args, a.addr(addr, tcp))
				}
				if op != opConnect && op != opDisconnect {
					var h = pk.Hex()
					if rapid.IntRange(0, 4).Draw(t, "upper case") == 0 {
						h = strings.ToUpper(h)
					}
					args = append(args, h)
				}
				cmd = noisy(t, cmd, args...)
				var res [2]string
				res[0] = a.result(cl.do(cmd))
				pbt.Within(patience, opNames[op], func() { res[1] = ws[1].do(op, pk, addr, tcp) })
				c.Note("%s %d %v: %s", opNames[op], addr, tcp, res[1])
				if res[0] != res[1] {
					t.Fatalf("%s: CLI %q, local %q", cmd, res[0], res[1])
				}
				if res[0] == "ok" {
					ok++
				} else {
					failed++
				}
				eventually(t, "state of the nodes after "+cmd, func() string {
					for _, w := range ws {
						if d := w.settled(); d != "" {
							return d
						}
					}
					if a, b := ws[0].state(), ws[1].state(); a != b {
						return fmt.Sprintf("by CLI %s, locally %s", a, b)
					}
					return ""
				})
			}
		}
		if a, b := ws[0].state(), ws[1].state(); a != b {
			t.Fatalf("by CLI %s, locally %s", a, b)
		}
		if cl.s != nil {
			cl.leave("quit")
		}
		if rapid.IntRange(0, 9).Draw(t, "nobody") == 0 {
			if x := cl.run("-a", "127.0.0.1:1", "-e", "stat"); x.code != 1 || x.err == "" || x.out != "" {
				t.Fatalf("nobody listens: exit code %d, output %q, error %q", x.code, x.out, x.err)
			}
		}
		if ok > 0 && failed > 0 {
			c.NonTrivial()
		}
	})
}

// daemon is a cxod process
type daemon struct {
	t        failer
	cmd      *exec.Cmd
	dir      string
	tcp, rpc string
	args     []string
	done     chan struct{}
	rc       *node.RPCClient
	errs     *bytes.Buffer
}

// start the process, false if it has exited
func (d *daemon) start(tcp, rpc string) (ok bool) {
	d.tcp, d.rpc = tcp, rpc
	d.errs = new(bytes.Buffer)
	d.cmd = exec.Command(program("cxod"), append([]string{"-tcp", tcp, "-rpc", rpc}, d.args...)...)
	d.cmd.Env, d.cmd.Dir, d.cmd.Stdout, d.cmd.Stderr = cliEnv(d.dir), d.dir, d.errs, d.errs
	if err := d.cmd.Start(); err != nil {
		pbt.Infra(err)
	}
	var done = make(chan struct{})
	d.done = done
	var cmd = d.cmd
	go func() {
		cmd.Wait()
		close(done)
	}()
	var dl = time.Now().Add(patience)
	for time.Now().Before(dl) {
		select {
		case <-done:
			return false
		default:
		}
		var err error
		if d.rc, err = node.NewRPCClient(rpc); err == nil {
			if a, err := d.rc.TCP().Address(); err == nil && a == tcp {
				return true
			}
			d.rc.Close()
		}
		time.Sleep(2 * time.Millisecond)
	}
	d.t.Fatalf("cxod doesn't start: %q", d.errs.String())
	return
}

// up starts the process on free ports
func (d *daemon) up() {
	for try := 0; try < 20; try++ {
		if d.start(freePort(), freePort()) {
			return
		}
		if !strings.Contains(d.errs.String(), "in use") {
			break
		}
	}
	d.t.Fatalf("cxod: %q", d.errs.String())
}

// down ends the process
func (d *daemon) down(sig syscall.Signal) {
	d.rc.Close()
	d.cmd.Process.Signal(sig)
	select {
	case <-d.done:
	case <-time.After(patience):
		d.cmd.Process.Kill()
		d.t.Fatalf("cxod doesn't exit")
	}
	if code := d.cmd.ProcessState.ExitCode(); sig == syscall.SIGINT && code != 0 {
		d.t.Fatalf("cxod: exit code %d, %q", code, d.errs.String())
	}
}

func (d *daemon) stop() {
	if d.cmd != nil && d.cmd.Process != nil {
		d.cmd.Process.Kill()
		<-d.done
	}
	os.RemoveAll(d.dir)
}

// TestC03 is about the daemon: it accepts all subscriptions, gives what
// it has to subscribers, and keeps it
func TestC03(t *testing.T) {
	pbt.Check(t, "daemon", 60, 900, func(t *rapid.T, c *pbt.Case) {
		var dir, err = os.MkdirTemp(pbt.Scratch(), "cxod")
		if err != nil {
			pbt.Infra(err)
		}
		var d = &daemon{t: t, dir: dir}
		defer d.stop()
		var mem = rapid.IntRange(0, 4).Draw(t, "in memory") == 0
		switch where := rapid.IntRange(0, 2).Draw(t, "place"); {
		case mem:
			d.args = append(d.args, "-mem-db")
		case where == 1:
			d.args = append(d.args, "-data-dir", filepath.Join(dir, "data"))
		case where == 2:
			d.args = append(d.args, "-db-path", filepath.Join(dir, "store"))
		}
		var public = rapid.Bool().Draw(t, "public")
		d.args = append(d.args, "-udp=", fmt.Sprintf("-public=%v", public))
		var heads = rapid.IntRange(0, 5).Draw(t, "max heads")
		if heads > 0 {
			d.args = append(d.args, "-max-heads", fmt.Sprint(heads))
		}
		c.Note("%q", d.args)
		d.up()
		if conf, err := d.rc.Node().Config(); err != nil || conf.Public != public || heads > 0 && conf.MaxHeads != heads || conf.UDP.Listen != "" || conf.InMemoryDB != mem {
			t.Fatalf("configurations of cxod %q: %+v, %v", d.args, conf, err)
		}

		var src = newNode(t, 0, nil)
		defer src.stop()
		var p = newPool()
		var owners [2]*owner
		for f := range owners {
			owners[f] = newOwner(t, src, keys[f])
		}
		var shared = map[int]bool{}         // by the daemon
		var last = map[int]*registry.Root{} // that the daemon has
		var dialed *node.Conn
		var subscribed = map[int]bool{}
		var restarts, published int
		var agrees = func() {
			eventually(t, "feeds and roots of cxod", func() string {
				var fs, err = d.rc.Node().Feeds()
				if err != nil {
					t.Fatalf("RPC: %v", err)
				}
				var want []cipher.PubKey
				for f := range shared {
					want = append(want, keys[f].pk)
				}
				if g, w := feedNames(fs), feedNames(want); g != w {
					return fmt.Sprintf("feeds %s, expected %s", g, w)
				}
				for f := range owners {
					var r, err = d.rc.Root().Last(keys[f].pk)
					switch w := last[f]; {
					case w == nil && err == nil:
						return fmt.Sprintf("root %d of feed %d is unexpected", r.Seq, f)
					case w != nil && err != nil:
						return fmt.Sprintf("no root of feed %d: %v", f, err)
					case w != nil && (r.Seq != w.Seq || r.Hash != w.Hash):
						return fmt.Sprintf("root of feed %d is %d, expected %d", f, r.Seq, w.Seq)
					}
				}
				return ""
			})
		}
		for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
			var f = rapid.IntRange(0, len(owners)-1).Draw(t, "feed")
			var own = owners[f]
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0, 1, 2:
				c.Note("publish %d", f)
				var r = own.save(t, p, 1, drawRefs(t, p, 2))
				if dialed == nil {
					if dialed, err = src.n.TCP().Connect(d.tcp); err != nil {
						t.Fatalf("connect: %v", err)
					}
				}
				if !subscribed[f] {
					if err = dialed.Subscribe(keys[f].pk); err != nil {
						t.Fatalf("cxod rejects subscription: %v", err)
					}
					subscribed[f], shared[f] = true, true
				} else {
					src.n.Publish(r)
				}
				last[f] = r
				published++
				agrees()
			case 3, 4:
				c.Note("read %d", f)
				var dst = newNode(t, 1, nil)
				func() {
					defer dst.stop()
					if err := dst.n.Share(keys[f].pk); err != nil {
						t.Fatalf("share: %v", err)
					}
					var cn, err = dst.n.TCP().Connect(d.tcp)
					if err != nil {
						t.Fatalf("connect: %v", err)
					}
					var fs, ferr = cn.RemoteFeeds()
					if (ferr == nil) != public {
						t.Fatalf("list of feeds of cxod, public %v: %v", public, ferr)
					}
					if public {
						var want []cipher.PubKey
						for f := range shared {
							want = append(want, keys[f].pk)
						}
						if g, w := feedNames(fs), feedNames(want); g != w {
							t.Fatalf("list of feeds of cxod %s, expected %s", g, w)
						}
					}
					if err = cn.Subscribe(keys[f].pk); err != nil {
						t.Fatalf("cxod rejects subscription: %v", err)
					}
					shared[f] = true
					if w := last[f]; w != nil {
						eventually(t, "root of cxod is received", func() string {
							var r, err = dst.n.Container().LastRoot(keys[f].pk, w.Nonce)
							if err != nil || r.Hash != w.Hash {
								return fmt.Sprintf("%v %v", r, err)
							}
							return ""
						})
						complete(t, dst, w.Refs, p.vals)
					}
				}()
				agrees()
			case 5, 6:
				var sig = syscall.SIGINT
				if rapid.Bool().Draw(t, "kill") {
					sig = syscall.SIGKILL
				}
				c.Note("restart by %v", sig)
				restarts++
				d.down(sig)
				d.up()
				if dialed != nil {
					eventually(t, "connection with closed cxod is closed", func() string {
						return strings.Repeat("x", len(src.n.Connections()))
					})
				}
				dialed, subscribed = nil, map[int]bool{}
				shared = map[int]bool{} // see documentation of Share
				if mem {
					last = map[int]*registry.Root{}
				}
				agrees()
			case 7:
				// the CLI and a daemon; another daemon can't use the same DB
				if !mem && rapid.Bool().Draw(t, "second daemon") {
					c.Class("second daemon of a DB")
					var e = &daemon{t: t, dir: d.dir, args: d.args}
					if e.start(freePort(), freePort()) {
						e.rc.Close()
						e.cmd.Process.Kill()
						<-e.done
						t.Fatalf("two daemons use one DB")
					}
					if e.cmd.ProcessState.ExitCode() == 0 {
						t.Fatalf("a daemon that can't open DB exits with 0")
					}
				}
				var cl = newCLI(t, d.rpc)
				func() {
					defer cl.stop()
					if a := cl.run("-a", d.rpc, "-e", "share feed "+keys[f].pk.Hex()); a.code != 0 {
						t.Fatalf("share: %q", a.err)
					}
				}()
				shared[f] = true
				agrees()
			}
		}
		if published > 0 && restarts > 0 {
			c.NonTrivial()
		}
	})
}
