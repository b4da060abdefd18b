package tsky

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// a job is a root to fill
type job struct {
	r      *registry.Root
	f      *skyobject.Filler
	par    int
	err    error
	pk     int
	dup    bool // the root already exists
	cancel string
	after  int32 // cancel after
	inTime bool  // cancel when an object comes
	reqs   int32
}

// source delivers objects
type source struct {
	h    *hist
	get  func(k hash) ([]byte, bool)
	rq   chan cipher.SHA256
	rnd  *rand.Rand
	mx   sync.Mutex
	reqs map[hash]int
	had  map[hash]bool // objects the receiver had
	bad  []string

	slow    bool
	twice   bool
	batch   bool
	strange bool
	hook    func(n int32)
	n       int32
	quit    chan struct{}
	wg      sync.WaitGroup
	missing bool // has an unknown object been requested
	onMiss  func(k hash)
}

func (s *source) rand(n int) int {
	s.mx.Lock()
	defer s.mx.Unlock()
	return s.rnd.Intn(n)
}

func (s *source) fail(format string, args ...interface{}) {
	s.mx.Lock()
	defer s.mx.Unlock()
	if len(s.bad) < 5 {
		s.bad = append(s.bad, fmt.Sprintf(format, args...))
	}
}

func (s *source) deliver(k hash, val []byte) {
	if _, err := s.h.sc.SetWanted(k, append([]byte(nil), val...)); err != nil {
		s.fail("SetWanted: %v", err)
	}
}

func (s *source) serve(k hash) {
	s.mx.Lock()
	s.reqs[k]++
	var had = s.had[k]
	s.mx.Unlock()
	if had {
		s.fail("object %s the receiver has is requested", s.h.name(k))
	}
	if s.hook != nil {
		s.hook(atomic.AddInt32(&s.n, 1))
	}
	var val, ok = s.get(k)
	if !ok {
		if s.onMiss == nil {
			s.fail("unknown object %s is requested", short(k))
			return
		}
		s.onMiss(k)
		return
	}
	if s.strange && s.rand(3) == 0 {
		// nobody wants it
		var x = []byte(fmt.Sprintf("nobody wants it %d", s.rand(1000)))
		s.deliver(hashOf(x), x)
	}
	s.deliver(k, val)
	if s.twice && s.rand(3) == 0 {
		s.deliver(k, val)
	}
}

func (s *source) start(workers int) {
	s.quit = make(chan struct{})
	for i := 0; i < workers; i++ {
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			var pend []hash
			for {
				var tm <-chan time.Time
				if len(pend) > 0 {
					tm = time.After(time.Duration(20+s.rand(150)) * time.Microsecond)
				}
				select {
				case k := <-s.rq:
					if s.batch {
						if pend = append(pend, k); len(pend) < 6 {
							continue
						}
					} else {
						if s.slow {
							time.Sleep(time.Duration(s.rand(200)) * time.Microsecond)
						}
						s.serve(k)
						continue
					}
				case <-tm:
				case <-s.quit:
					return
				}
				for len(pend) > 0 {
					var j = s.rand(len(pend))
					s.serve(pend[j])
					pend = append(pend[:j], pend[j+1:]...)
				}
			}
		}()
	}
}

func (s *source) stop() {
	close(s.quit)
	s.wg.Wait()
}

// source draws the way of delivering
func (h *hist) source(get func(k hash) ([]byte, bool)) (s *source) {
	s = &source{h: h, get: get, reqs: map[hash]int{}, had: map[hash]bool{}}
	s.rnd = rand.New(rand.NewSource(rapid.Int64().Draw(h.t, "schedule")))
	s.slow = rapid.Bool().Draw(h.t, "slow")
	s.twice = rapid.Bool().Draw(h.t, "twice")
	s.strange = rapid.Bool().Draw(h.t, "strange")
	s.batch = rapid.Bool().Draw(h.t, "batch")
	s.rq = make(chan cipher.SHA256, rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(h.t, "queue"))
	var _, vs = h.content()
	for k := range vs {
		s.had[k] = true
	}
	return
}

func inPool(p *pool) func(k hash) ([]byte, bool) {
	return func(k hash) (v []byte, ok bool) { v, ok = p.vals[k]; return }
}

// drawRoot makes a root signed by its owner
func (h *hist) drawRoot(i int) (r *registry.Root) {
	r = new(registry.Root)
	r.Pub, r.Nonce = keys[i].pk, h.drawNonce(i, false)
	r.Seq = uint64(rapid.IntRange(0, 8).Draw(h.t, "seq"))
	if r.Seq > 0 {
		r.Prev = hash{byte(r.Seq)}
	}
	r.Time = int64(rapid.IntRange(1, 9).Draw(h.t, "time"))
	var reg = rapid.SampledFrom([]int{0, 0, 1}).Draw(h.t, "registry")
	r.Reg = regs[reg].Reference()
	h.p.vals[regKeys[reg]] = regs[reg].Encode()
	if rs := h.roots(); len(rs) > 0 && rapid.IntRange(0, 2).Draw(h.t, "source") == 0 {
		sort.Slice(rs, func(a, b int) bool { return bytes.Compare(rs[a].hash[:], rs[b].hash[:]) < 0 })
		r.Refs = append(r.Refs, rapid.SampledFrom(rs).Draw(h.t, "like").refs...)
	}
	for j := rapid.IntRange(0, 4).Draw(h.t, "branches"); j > 0; j-- {
		r.Refs = append(r.Refs, h.p.dynamic(h.t, 4))
	}
	h.sign(i, r)
	return
}

func (h *hist) sign(i int, r *registry.Root) {
	r.Hash = hashOf(r.Encode())
	var err error
	r.Sig, err = cipher.SignHash(r.Hash, keys[i].sk)
	h.must(err, "sign")
}

func (h *hist) receive(r *registry.Root) (x *registry.Root) {
	var err error
	x, err = h.sc.ReceivedRoot(r.Pub, r.Sig, r.Encode())
	h.must(err, "ReceivedRoot")
	return
}

// drawJobs draws roots of known feeds with different places
func (h *hist) drawJobs(max int) (js []*job) {
	var ks = h.pks()
	if len(ks) == 0 {
		h.addFeed()
		ks = h.pks()
	}
	var places = map[string]bool{}
	for n := rapid.IntRange(1, max).Draw(h.t, "fillings"); n > 0; n-- {
		var i = rapid.SampledFrom(ks).Draw(h.t, "feed")
		var j = &job{pk: i, par: rapid.SampledFrom([]int{0, 1, 1, 2, 5, 100}).Draw(h.t, "parallel")}
		if len(js) > 0 && rapid.IntRange(0, 5).Draw(h.t, "same root") == 0 {
			// the same root twice at once
			var r = *js[0].r
			r.Refs = append([]registry.Dynamic(nil), r.Refs...)
			j.r, j.pk, j.dup = &r, js[0].pk, js[0].dup
			js = append(js, j)
			continue
		}
		j.r = h.drawRoot(i)
		var pl = fmt.Sprint(i, j.r.Nonce, j.r.Seq)
		if places[pl] {
			continue // another root at the same place
		}
		if hd := h.feeds[j.r.Pub][j.r.Nonce]; hd != nil && hd.roots[j.r.Seq] != nil {
			if hd.roots[j.r.Seq].hash != j.r.Hash {
				continue
			}
			j.dup = true
		}
		places[pl] = true
		js = append(js, j)
	}
	for _, j := range js {
		h.note("root %d/%d/%d refs %d parallel %d", j.pk, j.r.Nonce, j.r.Seq, len(j.r.Refs), j.par)
	}
	return
}

// run fillers at once
func (h *hist) runJobs(s *source, js []*job) {
	s.start(rapid.IntRange(1, 4).Draw(h.t, "workers"))
	for _, j := range js {
		j.r = h.receive(j.r)
		if want := h.has(infoOf(j.r)); j.r.IsFull != want {
			h.failf("IsFull of received root is %v, want %v", j.r.IsFull, want)
		}
	}
	var wg sync.WaitGroup
	pbt.Within(hangs, "filling", func() {
		for _, j := range js {
			j.f = h.sc.Fill(j.r, s.rq, j.par)
		}
		for _, j := range js {
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				j.err = j.f.Run()
				j.f.Close()
			}(j)
		}
		wg.Wait()
	})
	s.stop()
	if len(s.bad) > 0 {
		h.failf("%s", s.bad[0])
	}
}

// add filled root to the model
func (h *hist) filled(r *registry.Root) {
	var hs = h.feeds[r.Pub]
	if hs[r.Nonce] == nil {
		hs[r.Nonce] = &headInfo{roots: map[uint64]*rootInfo{}}
	}
	if hs[r.Nonce].roots[r.Seq] == nil {
		hs[r.Nonce].roots[r.Seq] = infoOf(r)
		h.saves++
	}
}

// needs is what the roots need and the receiver has not
func (h *hist) needs(js []*job, had map[hash]bool, get func(k hash) ([]byte, bool)) (ks map[hash]bool) {
	var c = newCounter(get)
	ks = map[hash]bool{}
	for _, j := range js {
		c.root(infoOf(j.r))
	}
	for k := range c.count {
		if !had[k] {
			ks[k] = true
		}
	}
	for _, j := range js {
		delete(ks, j.r.Hash)
	}
	return
}

func (h *hist) fillAll(max int) {
	var js = h.drawJobs(max)
	var s = h.source(inPool(h.p))
	h.runJobs(s, js)
	var want = h.needs(js, s.had, inPool(h.p))
	for k := range want {
		if s.reqs[k] == 0 {
			h.failf("missing object %s was not requested", h.name(k))
		}
	}
	for k := range s.reqs {
		if !want[k] {
			h.failf("object %s does not belong to the roots but was requested", h.name(k))
		}
	}
	for _, j := range js {
		if j.err != nil {
			h.failf("filling: %v", j.err)
		}
		if !j.r.IsFull {
			h.failf("root is not full after filling")
		}
		h.filled(j.r)
	}
	if len(want) > 2 {
		h.c.NonTrivial()
	}
	if len(js) > 1 {
		h.c.Class("fillings at once")
	}
	var x *registry.Root
	var err error
	for _, j := range js {
		x, err = h.sc.Root(j.r.Pub, j.r.Nonce, j.r.Seq)
		h.must(err, "filled root")
		h.sameRoot(x, infoOf(j.r), "filled")
		var _, vs = h.content()
		h.walkRoot(x, vs)
		for k := range want {
			if k != regKeys[0] && k != regKeys[1] && !bytes.Equal(vs[k], h.p.vals[k]) {
				h.failf("object %s is not transferred", h.name(k))
			}
		}
	}
	h.liveRC()
}

var prepOps = []string{"save", "save", "fill", "fill", "del", "remove objects", "abandon", "reopen"}

func (h *hist) prepare(max int) {
	for i := rapid.IntRange(1, 3).Draw(h.t, "feeds"); i > 0; i-- {
		h.addFeed()
	}
	for i := rapid.IntRange(0, max).Draw(h.t, "ops before"); i > 0; i-- {
		h.op(rapid.SampledFrom(prepOps).Draw(h.t, "op"))
	}
	// nothing is held
	for _, u := range h.open {
		h.must(u.up.Close(), "close Unpack")
	}
	h.open = nil
}

func TestS07(t *testing.T) {
	pbt.Check(t, "fill", 500, 5000, func(t *rapid.T, c *pbt.Case) {
		var h = newHist(t, c, chkRC|chkIndex)
		defer h.finish()
		h.prepare(5)
		for i := rapid.IntRange(1, 4).Draw(t, "rounds"); i > 0; i-- {
			h.fillAll(3)
			h.check()
			if rapid.IntRange(0, 2).Draw(t, "op between") == 0 {
				h.op(rapid.SampledFrom([]string{"del", "remove objects", "remove roots"}).Draw(t, "op"))
			}
		}
		h.reopen()
		h.check()
	})
}

// TestS07Transfer fills roots of one container from another one
func TestS07Transfer(t *testing.T) {
	pbt.Check(t, "transfer", 300, 3000, func(t *rapid.T, c *pbt.Case) {
		var h = newHist(t, c, chkRC)
		defer h.finish()
		var s = newHist(t, c, chkRC)
		defer s.finish()
		s.p = h.p
		s.prepare(2)
		for i := rapid.IntRange(1, 4).Draw(t, "saves"); i > 0; i-- {
			s.save()
		}
		for _, u := range s.open {
			s.must(u.up.Close(), "close Unpack")
		}
		s.open = nil
		var rs = s.roots()
		if len(rs) == 0 {
			return
		}
		sort.Slice(rs, func(a, b int) bool { return bytes.Compare(rs[a].hash[:], rs[b].hash[:]) < 0 })
		for _, i := range s.pks() {
			h.must(h.sc.AddFeed(keys[i].pk), "add feed")
			h.feeds[keys[i].pk] = map[uint64]*headInfo{}
		}
		var perm = rapid.Permutation(rs).Draw(t, "order")
		var n = len(perm)
		if rapid.Bool().Draw(t, "not all") {
			n = rapid.IntRange(1, n).Draw(t, "roots")
		}
		var todo = perm[:n]
		for len(todo) > 0 {
			var k = rapid.IntRange(1, len(todo)).Draw(t, "at once")
			var js []*job
			for _, ri := range todo[:k] {
				var x, err = s.sc.Root(ri.pk, ri.nonce, ri.seq)
				h.must(err, "root of the sender")
				js = append(js, &job{r: x, par: rapid.IntRange(0, 3).Draw(t, "parallel")})
			}
			todo = todo[k:]
			h.note("fill %d roots at once", k)
			var src = h.source(func(k hash) (val []byte, ok bool) {
				var err error
				val, _, err = s.sc.Get(k, 0)
				return val, err == nil
			})
			h.runJobs(src, js)
			for _, j := range js {
				if j.err != nil {
					h.failf("filling: %v", j.err)
				}
				h.filled(j.r)
			}
			h.liveRC()
		}
		if n > 1 {
			c.NonTrivial()
		}
		// everything is like the sender has
		if n == len(perm) {
			c.Class("all roots")
			var sm, _ = s.content()
			var hm, _ = h.content()
			for k := range sm {
				var sv, srs, err = s.sc.Get(k, 0)
				h.must(err, "get of sender")
				if srs == 0 {
					continue
				}
				var hv, hrs, herr = h.sc.Get(k, 0)
				if herr != nil || !bytes.Equal(sv, hv) || srs != hrs {
					h.failf("object %s of the sender has counter %d, of the receiver %d (%v)", h.name(k), srs, hrs, herr)
				}
			}
			for k := range hm {
				if _, ok := sm[k]; !ok {
					h.failf("receiver has object %s the sender has not", h.name(k))
				}
			}
		}
	})
}

var errRequired = errors.New("failed as required")

// TestS08 breaks fillings
func TestS08(t *testing.T) {
	pbt.Check(t, "broken", 500, 5000, func(t *rapid.T, c *pbt.Case) {
		var h = newHist(t, c, chkRC|chkIndex|chkClean)
		defer h.finish()
		h.prepare(5)
		for i := rapid.IntRange(1, 3).Draw(t, "rounds"); i > 0; i-- {
			h.breakFill()
		}
		h.reopen()
		h.check()
	})
}

// counters of what was before
func (h *hist) rcs() (m map[hash]int) {
	m = map[hash]int{}
	var _, vs = h.content()
	for k := range vs {
		var _, rc, err = h.sc.Get(k, 0)
		h.must(err, "get")
		m[k] = rc
	}
	return
}

func (h *hist) breakFill() {
	var js = h.drawJobs(3)
	var s = h.source(inPool(h.p))
	var need = h.needs(js, s.had, inPool(h.p))
	var lost = map[hash]bool{}
	var broken = map[hash]bool{}
	var hows = []string{"none", "fail", "fail", "close", "close", "close", "lost", "malformed", "before"}
	var list = make([]hash, 0, len(need))
	for k := range need {
		list = append(list, k)
	}
	sort.Slice(list, func(i, j int) bool { return bytes.Compare(list[i][:], list[j][:]) < 0 })
	var any bool
	for _, j := range js {
		j.cancel = rapid.SampledFrom(hows).Draw(h.t, "break")
		j.after = int32(rapid.IntRange(0, len(need)+1).Draw(h.t, "after"))
		j.inTime = rapid.Bool().Draw(h.t, "in time")
		any = any || j.cancel != "none"
		h.note("%s after %d of %d", j.cancel, j.after, len(need))
		h.c.Class("break: " + j.cancel)
	}
	// the source has no some object
	var byFail bool
	for _, j := range js {
		if j.cancel == "lost" && len(list) > 0 {
			lost[rapid.SampledFrom(list).Draw(h.t, "lost")] = true
			byFail = rapid.Bool().Draw(h.t, "fail on lost")
		}
		if j.cancel == "malformed" {
			// an object of the root does not match its schema
			var typ = uint8(rapid.IntRange(tPair, tDeep).Draw(h.t, "malformed"))
			var val = append([]byte{typ}, byte(h.p.n), byte(h.p.n>>8), byte(h.p.n>>16))
			h.p.n++
			val = append(val, make([]byte, rapid.IntRange(0, 30).Draw(h.t, "size"))...)
			var k = hashOf(val)
			broken[k] = true
			h.p.vals[k] = val
			j.r.Refs = append(j.r.Refs, registry.Dynamic{Hash: k, Schema: schemas[typ]})
			j.dup = false
			j.r.Seq += uint64(1000 + h.p.n) // must be another place
			j.r.Prev = hash{1}
			h.sign(j.pk, j.r)
		}
	}
	defer func() {
		for k := range broken {
			delete(h.p.vals, k)
		}
	}()
	s.get = func(k hash) (v []byte, ok bool) {
		if lost[k] {
			return
		}
		v, ok = h.p.vals[k]
		return
	}
	s.onMiss = func(k hash) {
		for _, j := range js {
			if byFail {
				j.f.Fail(errRequired)
			} else {
				var f = j.f
				s.wg.Add(1)
				go func() { defer s.wg.Done(); f.Close() }()
			}
		}
	}
	s.hook = func(n int32) {
		for _, j := range js {
			if n != j.after {
				continue
			}
			var f = j.f
			var cancel = func() {
				switch j.cancel {
				case "fail":
					f.Fail(errRequired)
				case "close":
					s.wg.Add(1)
					go func() { defer s.wg.Done(); f.Close() }()
				}
			}
			if !j.inTime || h.db == nil {
				cancel()
				continue
			}
			// at the moment when an object is being saved
			var once sync.Once
			h.db.setHook.Store(func() {
				once.Do(func() {
					s.wg.Add(1)
					go func() { defer s.wg.Done(); cancel() }()
					time.Sleep(time.Duration(100+s.rand(200)) * time.Microsecond)
				})
			})
		}
	}
	var before = h.rcs()
	for _, j := range js {
		j.r = h.receive(j.r)
	}
	var wg sync.WaitGroup
	pbt.Within(hangs, "filling", func() {
		for _, j := range js {
			j.f = h.sc.Fill(j.r, s.rq, j.par)
		}
		s.start(rapid.IntRange(1, 3).Draw(h.t, "workers"))
		for _, j := range js {
			wg.Add(1)
			go func(j *job) {
				defer wg.Done()
				if j.cancel == "before" {
					if j.after%2 == 0 {
						j.f.Close()
					} else {
						j.f.Fail(errRequired)
					}
				}
				j.err = j.f.Run()
				j.f.Close()
			}(j)
		}
		wg.Wait()
	})
	if h.db != nil {
		h.db.setHook.Store(func() {})
	}
	s.stop()
	if len(s.bad) > 0 {
		h.failf("%s", s.bad[0])
	}
	var failed int
	for _, j := range js {
		switch {
		case j.err == nil:
			if !j.r.IsFull {
				h.failf("root is not full after filling")
			}
			if j.cancel == "before" || j.cancel == "malformed" {
				h.failf("broken (%s) filling succeeds", j.cancel)
			}
			h.filled(j.r)
		default:
			if len(lost) == 0 && (j.cancel == "none" || j.after == 0 && j.cancel != "before" && j.cancel != "malformed" && j.cancel != "lost") {
				h.failf("filling that is not broken fails: %v", j.err)
			}
			if j.r.IsFull {
				h.failf("root is full after failed filling")
			}
			failed++
			h.c.Class("failed")
		}
	}
	if failed > 0 && len(need) > 0 {
		h.c.NonTrivial()
	}
	// counters of roots, and nothing more
	var c = newCounter(func(k hash) ([]byte, bool) {
		if v, ok := h.p.vals[k]; ok {
			return v, ok
		}
		var v, _, err = h.sc.Get(k, 0)
		return v, err == nil
	})
	for _, r := range h.roots() {
		c.root(r)
	}
	for k, rc := range h.rcs() {
		if rc != c.count[k] {
			h.failf("counter of %s is %d after broken filling, used %d times by roots (counter before is %d)", h.name(k), rc, c.count[k], before[k])
		}
	}
	for k := range before {
		if _, _, err := h.sc.Get(k, 0); err != nil {
			h.failf("object %s disappeared", h.name(k))
		}
	}
	for _, j := range js {
		var x, err = h.sc.Root(j.r.Pub, j.r.Nonce, j.r.Seq)
		if h.has(infoOf(j.r)) {
			h.must(err, "filled root")
			continue
		}
		if err != data.ErrNotFound && err != data.ErrNoSuchHead {
			h.failf("root of failed filling: %v, %v", x, err)
		}
		if x, err = h.sc.RootByHash(j.r.Hash); err == nil {
			h.failf("root of failed filling is found by hash: %v", x)
		}
	}
	h.check()
	if rapid.IntRange(0, 2).Draw(h.t, "clean") > 0 {
		h.removeObjects()
	}
	// fill again
	for _, j := range js {
		if j.cancel == "malformed" || rapid.IntRange(0, 3).Draw(h.t, "again") == 0 {
			continue
		}
		var s2 = h.source(inPool(h.p))
		var j2 = &job{r: j.r, pk: j.pk, par: j.par}
		j2.r.IsFull = false
		h.note("again")
		h.runJobs(s2, []*job{j2})
		if j2.err != nil {
			h.failf("filling after failed one: %v", j2.err)
		}
		h.filled(j2.r)
	}
	h.liveRC()
	h.check()
}
