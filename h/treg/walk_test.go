package treg

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

const tooMany = 4000 // visits

var errTooMany = errors.New("too many visits")

func TestR06(t *testing.T) {
	pbt.Check(t, "R06 walk", 16000, 200000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{MaxTypes: 4})
		var g = drawGraph(t, w, 9)
		var r, cs = drawRoot(t, w, g)
		var p = newPack(decoded(t, w.Reg), 16, 0)
		p.m, p.readOnly = g.Store(), true
		if rapid.IntRange(0, 3).Draw(t, "flags") == 0 {
			p.flags = registry.Flags(rapid.SampledFrom([]int{1, 4, 5}).Draw(t, "flags"))
		}

		// one whole walk by the model
		var all []gen.Visit
		var m = gen.Walker{G: g, Func: func(v gen.Visit) (bool, error) {
			if all = append(all, v); len(all) > tooMany {
				return false, errTooMany
			}
			return true, nil
		}}
		for _, ch := range cs {
			if m.WalkChild(ch) != nil {
				t.Skip("too many visits")
			}
		}
		c.Note("%s; %d objects, %d visits", w, len(g.List), len(all))

		// policy of the walk
		var skip = map[int]bool{}
		var stopAt, failAt = -1, -1
		var missing = map[cipher.SHA256]bool{}
		var errTest = errors.New("test error")
		var n = len(all)
		if n > 0 {
			switch rapid.IntRange(0, 4).Draw(t, "policy") {
			case 0: // whole
				c.Class("whole")
			case 1:
				stopAt = rapid.IntRange(0, n-1).Draw(t, "stop at")
				c.Class("stop")
			case 2:
				failAt = rapid.IntRange(0, n-1).Draw(t, "fail at")
				c.Class("fail")
			case 3:
				c.Class("missing")
				var v = rapid.SampledFrom(all).Draw(t, "missing")
				if v.Hash != (cipher.SHA256{}) {
					p.flags &^= registry.HashTableIndex // loads all nodes at once
					missing[v.Hash] = true
					delete(p.m, v.Hash)
				}
			}
			if rapid.Bool().Draw(t, "skip") {
				c.Class("skip")
				for i := rapid.IntRange(1, 3).Draw(t, "skips"); i > 0; i-- {
					skip[rapid.IntRange(0, n-1).Draw(t, "skip at")] = true
				}
			}
		}
		var policy = func(seen *[]gen.Visit) func(v gen.Visit) (bool, error) {
			return func(v gen.Visit) (bool, error) {
				var i = len(*seen)
				if *seen = append(*seen, v); i > tooMany {
					return false, errTooMany
				}
				switch i {
				case stopAt:
					return rapidBool(i), registry.ErrStopIteration
				case failAt:
					return rapidBool(i), errTest
				}
				return !skip[i], nil
			}
		}

		var walk = func(what string, cs []gen.Child, fn func(registry.WalkFunc) error) {
			t.Helper()
			var want, got []gen.Visit
			var wk = gen.Walker{G: g, Missing: missing, Err: errMissing, Func: policy(&want)}
			var wantErr error
			for _, ch := range cs {
				if wantErr = wk.WalkChild(ch); wantErr != nil {
					break
				}
			}
			if wantErr == registry.ErrStopIteration {
				wantErr = nil
			}
			var f = policy(&got)
			var err = fn(func(h cipher.SHA256, depth int) (bool, error) { return f(gen.Visit{Hash: h, Depth: depth}) })
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("%s visits\n%v (%v), want\n%v (%v)", what, got, err, want, wantErr)
			}
			if err != wantErr {
				t.Fatalf("%s: error %v, want %v", what, err, wantErr)
			}
		}
		walk("Root.Walk", cs, func(f registry.WalkFunc) error { return r.Walk(p, f) })
		for _, ch := range childrenToWalk(t, g, cs) {
			var ch = ch
			walk("Walk of one reference", []gen.Child{ch}, func(f registry.WalkFunc) error {
				var s registry.Schema
				var reg = p.reg
				if ch.Ref != registry.ReferenceTypeDynamic {
					var err error
					if s, err = reg.SchemaByName(w.Types[ch.Type].Name); err != nil {
						t.Fatal(err)
					}
				}
				switch ch.Ref {
				case registry.ReferenceTypeSingle:
					return (&registry.Ref{Hash: ch.Hash}).Walk(p, s, f)
				case registry.ReferenceTypeSlice:
					return (&registry.Refs{Hash: ch.Hash}).Walk(p, s, f)
				}
				var dr = registry.Dynamic{Hash: ch.Hash}
				if ch.Schema {
					dr.Schema = w.SchemaRef(ch.Type)
				}
				return dr.Walk(p, f)
			})
		}
		if p.bad != nil {
			t.Fatal(p.bad)
		}
		if n > 3 {
			c.NonTrivial()
		}
	})
}

func rapidBool(i int) bool { return i%2 == 0 }

func childrenToWalk(t *rapid.T, g *gen.Graph, cs []gen.Child) (out []gen.Child) {
	for _, o := range g.List {
		cs = append(cs, o.Value.Children...)
	}
	if len(cs) > 0 {
		out = append(out, rapid.SampledFrom(cs).Draw(t, "reference"))
	}
	return
}

// splitter is the simplest filler
type splitter struct {
	mx   sync.Mutex
	p    *pack
	reg  *registry.Registry
	rcs  map[cipher.SHA256]int
	seen map[cipher.SHA256]bool
	errs []error

	mode  int // 0 - inline, 1 - goroutines, 2 - queue
	wg    sync.WaitGroup
	queue []func()
}

func (s *splitter) Registry() *registry.Registry { return s.reg }

func (s *splitter) Pre(key cipher.SHA256) (rc int, err error) {
	_, rc, err = s.Get(key)
	return
}

func (s *splitter) Get(key cipher.SHA256) (val []byte, rc int, err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.seen[key] = true
	if val, err = s.p.Get(key); err != nil {
		return
	}
	return val, s.rcs[key], nil
}

func (s *splitter) Fail(err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.errs = append(s.errs, err)
}

func (s *splitter) Go(fn func()) {
	switch s.mode {
	case 0:
		fn()
	case 1:
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			fn()
		}()
	default:
		s.queue = append(s.queue, fn)
	}
}

func TestR06Split(t *testing.T) {
	pbt.Check(t, "R06 split", 12000, 150000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{MaxTypes: 4})
		var g = drawGraph(t, w, 9)
		var r, cs = drawRoot(t, w, g)
		for i, ch := range cs {
			if ch.Hash == (cipher.SHA256{}) && ch.Schema {
				r.Refs[i] = registry.Dynamic{} // typed blank is not for splitting
			}
		}
		var p = newPack(nil, 16, 0)
		p.m, p.readOnly = g.Store(), true
		var s = &splitter{p: p, reg: decoded(t, w.Reg), rcs: map[cipher.SHA256]int{}, seen: map[cipher.SHA256]bool{},
			mode: rapid.IntRange(0, 2).Draw(t, "mode")}

		// objects that are known with everything below
		var keys []cipher.SHA256
		for h := range p.m {
			keys = append(keys, h)
		}
		sort.Slice(keys, func(i, j int) bool { return string(keys[i][:]) < string(keys[j][:]) })
		for _, h := range keys {
			switch rapid.IntRange(0, 9).Draw(t, "rc") {
			case 0:
				s.rcs[h] = 2
			}
		}
		var missing = map[cipher.SHA256]bool{}
		if rapid.IntRange(0, 3).Draw(t, "missing one") == 0 && len(keys) > 0 {
			var h = rapid.SampledFrom(keys).Draw(t, "missing")
			missing[h] = true
			delete(p.m, h)
		}

		var want = map[cipher.SHA256]bool{}
		var wantErr bool
		var n int
		var wk = gen.Walker{G: g, Func: func(v gen.Visit) (bool, error) {
			if n++; n > tooMany {
				return false, errTooMany
			}
			if v.Hash == (cipher.SHA256{}) {
				return false, nil
			}
			want[v.Hash] = true
			if missing[v.Hash] {
				wantErr = true
				return false, nil
			}
			return s.rcs[v.Hash] < 2, nil
		}}
		for _, ch := range cs {
			if wk.WalkChild(ch) != nil {
				t.Skip("too many visits")
			}
		}
		c.Note("%s; %d objects, %d visits, mode %d, missing %v", w, len(g.List), n, s.mode, len(missing))

		pbt.Within(60*time.Second, "Split", func() {
			for i := range r.Refs {
				var dr = &r.Refs[i]
				s.Go(func() { dr.Split(s) })
			}
			for len(s.queue) > 0 {
				var i = rapid.IntRange(0, len(s.queue)-1).Draw(t, "task")
				if rapid.Bool().Draw(t, "last") {
					i = len(s.queue) - 1
				}
				var fn = s.queue[i]
				s.queue = append(s.queue[:i], s.queue[i+1:]...)
				fn()
			}
			s.wg.Wait()
		})

		if wantErr {
			if len(s.errs) == 0 {
				t.Fatal("missing object is not an error")
			}
			for _, e := range s.errs {
				if e != errMissing {
					t.Fatalf("unexpected error %v", e)
				}
			}
			for h := range s.seen { // nothing else
				if !want[h] && !siblings(g, missing, h) {
					t.Fatalf("%s is requested, but it is not a part of the root", h.Hex()[:6])
				}
			}
		} else {
			if len(s.errs) > 0 {
				t.Fatalf("errors: %v", s.errs)
			}
			for h := range s.seen {
				if !want[h] {
					t.Fatalf("%s is requested, but it is not a part of the root", h.Hex()[:6])
				}
			}
			for h := range want {
				if !s.seen[h] {
					t.Fatalf("%s (depth of a node or an object %v) is not requested", h.Hex()[:6], g.All[h] != nil)
				}
			}
		}
		if p.bad != nil {
			t.Fatal(p.bad)
		}
		if n > 3 {
			c.NonTrivial()
		}
		c.Class(fmt.Sprintf("mode %d", s.mode))
	})
}

// siblings of a missing node are requested or not
func siblings(g *gen.Graph, missing map[cipher.SHA256]bool, h cipher.SHA256) bool { return true }
