package tsky

import (
	"fmt"
	"math"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// countCXDS counts reading and writing requests
type countCXDS struct {
	data.CXDS
	mx            sync.Mutex
	reads, writes int
}

func (c *countCXDS) count(inc int) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if inc == 0 {
		c.reads++
	} else {
		c.writes++
	}
}

func (c *countCXDS) counts() (reads, writes int) {
	c.mx.Lock()
	defer c.mx.Unlock()
	return c.reads, c.writes
}

func (c *countCXDS) Get(key cipher.SHA256, inc int) ([]byte, uint32, error) {
	c.count(inc)
	return c.CXDS.Get(key, inc)
}

func (c *countCXDS) Set(key cipher.SHA256, val []byte, inc int) (uint32, error) {
	c.count(1)
	return c.CXDS.Set(key, val, inc)
}

func (c *countCXDS) Inc(key cipher.SHA256, inc int) (uint32, error) {
	c.count(inc)
	return c.CXDS.Inc(key, inc)
}

// rates is a container with known amount of requests
type rates struct {
	sc            *skyobject.Container
	cx            *countCXDS
	start         time.Time
	reads, writes int // effective, of the cache
	roots         int
	cleaned       int // 0 - unknown, 1 - must be, -1 - must not be
	what          string
}

// averages of n seconds (for n not greater than number of samples)
// multiplied by the n are total numbers of requests
func (r *rates) check() (err error) {
	var s = r.sc.Stat()
	var dr, dw = r.cx.counts()
	var max = int(time.Since(r.start)/time.Second) + 2
	var fits = func(what string, total []int, avg []float64) error {
		for k := 1; k <= max; k++ {
			var ok = true
			for i := range avg {
				if math.Abs(avg[i]*float64(k)-float64(total[i])) > 1e-6*float64(1+total[i]) {
					ok = false
				}
			}
			if ok {
				return nil
			}
		}
		return fmt.Errorf("%s: %v per second, but there were %v for %s", what, avg, total, time.Since(r.start))
	}
	err = fits("reads and writes of database", []int{dr, dw}, []float64{s.CXDS.RPS, s.CXDS.WPS})
	if err == nil && r.reads >= 0 {
		err = fits("reads and writes of database and cache", []int{dr, dw, r.reads, r.writes},
			[]float64{s.CXDS.RPS, s.CXDS.WPS, s.Cache.RPS, s.Cache.WPS})
	}
	if err == nil {
		err = fits("new roots", []int{r.roots}, []float64{s.RootsPerSecond})
	}
	if err == nil && (r.cleaned > 0 && s.CacheCleaning <= 0 || r.cleaned < 0 && s.CacheCleaning != 0) {
		err = fmt.Errorf("average cleaning takes %s", s.CacheCleaning)
	}
	return
}

// TestS10Rates checks average rates of statistics
func TestS10Rates(t *testing.T) {
	pbt.Check(t, "S10 rates", 1, 12, func(t *rapid.T, c *pbt.Case) {
		var all []*rates
		for n := 48; n > 0; n-- {
			all = append(all, drawRates(t))
			c.Note("[%s]", all[len(all)-1].what)
		}
		c.NonTrivial()
		defer func() {
			for _, r := range all {
				r.sc.Close()
			}
		}()
		time.Sleep(3200 * time.Millisecond) // a few seconds of statistics
		for deadline := time.Now().Add(25 * time.Second); ; time.Sleep(250 * time.Millisecond) {
			var failed error
			for i, r := range all {
				if err := r.check(); err != nil {
					failed = fmt.Errorf("container %d, %s: %v", i, r.what, err)
				}
			}
			if failed == nil {
				return
			}
			if time.Now().After(deadline) {
				t.Fatal(failed)
			}
		}
	})
}

func drawRates(t *rapid.T) (r *rates) {
	var conf = skyobject.NewConfig()
	conf.DataDir = ""
	conf.RollAvgSamples = rapid.SampledFrom([]int{1000, 2000}).Draw(t, "samples")
	r = new(rates)
	r.what = drawCache(t, conf)
	r.cx = &countCXDS{CXDS: keepCXDS{CXDS: cxds.NewMemoryCXDS()}}
	var db = memDB()
	conf.DB = data.NewDB(r.cx, keepIdxDB{db.idx})
	var err error
	r.start = time.Now()
	if r.sc, err = skyobject.NewContainer(conf); err != nil {
		t.Fatal(err)
	}
	var must = func(err error) {
		if err != nil {
			t.Fatal(err)
		}
	}
	var effective = func(inc int, fn func()) {
		var a, b = r.cx.counts()
		fn()
		if x, y := r.cx.counts(); a != x || b != y {
			return
		}
		if inc == 0 {
			r.reads++
		} else {
			r.writes++
		}
	}
	var rc = map[int]int{}
	var nop int
	for ops := rapid.IntRange(0, 60).Draw(t, "operations"); ops > 0; ops-- {
		var i = rapid.IntRange(0, 8).Draw(t, "key")
		var key = hashOf(pay(i))
		var inc = rapid.SampledFrom([]int{0, 0, 1, -1}).Draw(t, "inc")
		nop++
		switch op := rapid.IntRange(0, 3).Draw(t, "op"); {
		case op == 0 || rc[i] == 0:
			if rc[i] == 0 && inc < 0 {
				// there is no such object
				if _, _, err = r.sc.Get(key, 0); err != data.ErrNotFound {
					t.Fatalf("got missing object: %v", err)
				}
				break
			}
			effective(1, func() { _, err = r.sc.Set(key, pay(i), 1) })
			must(err)
			rc[i]++
		case op == 1:
			if rc[i] < 3 && inc < 0 {
				inc = 0
			}
			effective(inc, func() { _, err = r.sc.Inc(key, inc) })
			must(err)
			rc[i] += inc
		default:
			if rc[i] < 3 && inc < 0 {
				inc = 0
			}
			effective(inc, func() { _, _, err = r.sc.Get(key, inc) })
			must(err)
			rc[i] += inc
		}
	}
	// cleaning
	var fit int
	for i, n := range rc {
		if n > 0 && len(pay(i)) <= conf.CacheMaxItemSize {
			fit++
		}
	}
	switch {
	case r.what != "small":
		r.cleaned = -1
	case fit > conf.CacheMaxAmount:
		r.cleaned = 1
	}
	r.what += fmt.Sprintf(", %d operations", nop)

	if rapid.Bool().Draw(t, "roots") {
		r.reads = -1 // how many effective requests are there is unknown
		var k = keys[0]
		must(r.sc.AddFeed(k.pk))
		var up, err = r.sc.Unpack(k.sk, regs[0])
		must(err)
		var n = rapid.IntRange(1, 20).Draw(t, "roots")
		for ; n > 0; n-- {
			var x = &registry.Root{Pub: k.pk, Nonce: uint64(1 + n%2)}
			must(r.sc.Save(up, x))
			r.roots++
			if n%3 == 0 { // add again
				var have, err = r.sc.AddRoot(x)
				must(err)
				if !have {
					t.Fatal("container does not have saved root")
				}
			}
		}
		must(up.Close())
		r.what += fmt.Sprintf(", %d roots", r.roots)
	}
	return
}
