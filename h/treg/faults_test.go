package treg

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

var errFault = errors.New("store fails")

// faulty is a pack whose n-th access fails
type faulty struct {
	*pack
	left int  // accesses before the failure (-1 - never)
	all  bool // everything fails after the first failure
	hits int
}

func (f *faulty) fail() bool {
	if f.left < 0 {
		return false
	}
	if f.left > 0 {
		f.left--
		return false
	}
	if !f.all {
		f.left = -1
	}
	f.hits++
	return true
}

func (f *faulty) Get(key cipher.SHA256) ([]byte, error) {
	if f.fail() {
		return nil, errFault
	}
	return f.pack.Get(key)
}

func (f *faulty) Set(key cipher.SHA256, val []byte) error {
	if f.fail() {
		return errFault
	}
	return f.pack.Set(key, val)
}

func (f *faulty) Add(val []byte) (cipher.SHA256, error) {
	if f.fail() {
		return cipher.SHA256{}, errFault
	}
	return f.pack.Add(val)
}

// faultsCase is a tree over a pack that fails
type faultsCase struct {
	t *rapid.T
	c *pbt.Case

	p *faulty
	r *registry.Refs

	list  []cipher.SHA256 // in memory
	saved []cipher.SHA256 // by r.Hash
	elem  []cipher.SHA256 // that can be used

	failedReads, failedWrites int
}

func (x *faultsCase) failf(format string, args ...interface{}) {
	x.t.Helper()
	x.t.Fatalf("%s\n  sequence (%d): %s", fmt.Sprintf(format, args...), len(x.list), short(x.list))
}

func (x *faultsCase) lazy() bool { return x.r.Flags()&registry.LazyUpdating != 0 }

func (x *faultsCase) hash() cipher.SHA256 { return rapid.SampledFrom(x.elem).Draw(x.t, "hash") }

func (x *faultsCase) hashes(max int) (hs []cipher.SHA256) {
	for i, n := 0, rapid.IntRange(1, max).Draw(x.t, "n"); i < n; i++ {
		hs = append(hs, x.hash())
	}
	return
}

// fresh forgets everything that is loaded
func (x *faultsCase) fresh() {
	x.p.left = -1
	if err := x.r.Reset(); err != nil {
		x.failf("Reset after a failure: %v", err)
	}
	var got, _, err = readTree(x.p.m, x.r.Hash, nil)
	if err != nil {
		x.failf("the tree stored by Hash after a failure: %v", err)
	}
	x.list, x.saved = got, got
}

// op performs an operation during which the store fails; the results are
// sequences the tree can have after it
func (x *faultsCase) op(what string, write bool, fn func() error, done func(), results ...[]cipher.SHA256) {
	x.t.Helper()
	x.p.left = rapid.IntRange(-1, 9).Draw(x.t, "fails after")
	x.p.all = rapid.Bool().Draw(x.t, "all")
	x.p.hits = 0
	x.c.Note("%s(fails after %d, all %v)", what, x.p.left, x.p.all)
	var err error
	pbt.Within(time.Minute, what, func() { err = fn() })
	x.p.left = -1
	if x.p.hits == 0 {
		if err != nil {
			x.failf("%s: %v", what, err)
		}
		done()
	} else {
		if err == nil {
			x.failf("%s: the store fails, but no error returned", what)
		}
		if err != errFault && !strings.Contains(err.Error(), errFault.Error()) {
			x.failf("%s: the store fails, but the error is: %v", what, err)
		}
		if write {
			x.failedWrites++
		} else {
			x.failedReads++
		}
		results = append(results, x.list, x.saved)
		if !write {
			results = [][]cipher.SHA256{x.list, x.saved}
		}
		x.fresh()
		var ok bool
		for _, l := range results {
			ok = ok || equal(x.list, l)
		}
		if !ok {
			x.failf("after failed %s the tree is another one, it can be any of %d", what, len(results))
		}
	}
	if !x.lazy() || x.r.Hash == (cipher.SHA256{}) {
		var got, _, err = readTree(x.p.m, x.r.Hash, nil)
		if err != nil {
			x.failf("the stored tree after %s: %v", what, err)
		}
		if !x.lazy() && !equal(got, x.list) {
			x.failf("the stored tree after %s is %s", what, short(got))
		}
	}
	if got, _, err := readTree(x.p.m, x.r.Hash, nil); err == nil {
		x.saved = got
	} else {
		x.failf("the stored tree after %s: %v", what, err)
	}
}

func (x *faultsCase) at() int { return rapid.IntRange(0, len(x.list)-1).Draw(x.t, "index") }

func (x *faultsCase) set(l []cipher.SHA256) func() { return func() { x.list = l } }

func (x *faultsCase) step() {
	var ops = []string{"append", "append", "append tree", "values", "degree", "rebuild", "len", "walk", "reset", "slice"}
	if len(x.list) > 0 {
		ops = append(ops, "set", "delete", "delete hash", "get", "find", "ascend", "descend", "value", "tree")
	}
	var nop = func() {}
	switch op := rapid.SampledFrom(ops).Draw(x.t, "op"); op {
	case "append":
		var hs = x.hashes(8)
		var l = append(append([]cipher.SHA256(nil), x.list...), hs...)
		x.op(op, true, func() error { return x.r.AppendHashes(x.p, hs...) }, x.set(l), l)
	case "append tree":
		var hs = x.hashes(12)
		var o registry.Refs
		if err := o.AppendHashes(x.p.on(registry.Degree(rapid.IntRange(2, 3).Draw(x.t, "other degree")), 0), hs...); err != nil {
			x.t.Fatal(err)
		}
		if rapid.Bool().Draw(x.t, "not loaded") {
			if err := o.Reset(); err != nil {
				x.t.Fatal(err)
			}
		}
		var h = o.Hash
		var l = append(append([]cipher.SHA256(nil), x.list...), hs...)
		x.op(op, true, func() error { return x.r.Append(x.p, &o) }, x.set(l), l)
		if o.Hash != h {
			x.failf("Append changes Refs that are appended")
		}
	case "values":
		var vs []interface{}
		var l = append([]cipher.SHA256(nil), x.list...)
		for i, n := 0, rapid.IntRange(1, 4).Draw(x.t, "n"); i < n; i++ {
			var e = elemOf(rapid.IntRange(0, 9).Draw(x.t, "value"))
			vs = append(vs, e)
			l = append(l, cipher.SumSHA256(encoder.Serialize(e)))
		}
		x.op(op, true, func() error { return x.r.AppendValues(x.p, vs...) }, x.set(l), l)
	case "degree":
		var d = registry.Degree(rapid.IntRange(2, 5).Draw(x.t, "new degree"))
		x.op(op, true, func() error { return x.r.SetDegree(x.p, d) }, nop)
	case "rebuild":
		x.op(op, true, func() error { return x.r.Rebuild(x.p) }, func() {
			var got, _, err = readTree(x.p.m, x.r.Hash, nil)
			if err != nil || !equal(got, x.list) {
				x.failf("after Rebuild the stored tree is %s, %v", short(got), err)
			}
		})
	case "len":
		var n int
		x.op(op, false, func() (err error) { n, err = x.r.Len(x.p); return }, func() {
			if n != len(x.list) {
				x.failf("Len is %d", n)
			}
		})
	case "walk":
		x.op(op, true, func() error {
			return x.r.Walk(x.p, nil, func(h cipher.SHA256, depth int) (bool, error) { return depth > 0, nil })
		}, nop)
	case "reset":
		if x.lazy() {
			x.op("rebuild", true, func() error { return x.r.Rebuild(x.p) }, nop)
		}
		x.fresh()
		x.p.flags = 0
		for _, f := range []registry.Flags{registry.HashTableIndex, registry.EntireRefs, registry.LazyUpdating} {
			if rapid.IntRange(0, 3).Draw(x.t, "flag") == 0 {
				x.p.flags |= f
			}
		}
		x.c.Note("reset, flags %d", x.p.flags)
	case "slice":
		var i = rapid.IntRange(0, len(x.list)).Draw(x.t, "i")
		var j = rapid.IntRange(i, len(x.list)).Draw(x.t, "j")
		var s *registry.Refs
		x.op(op, true, func() (err error) { s, err = x.r.Slice(x.p, i, j); return }, func() {
			var got, _, err = readTree(x.p.m, s.Hash, nil)
			if err != nil || !equal(got, x.list[i:j]) {
				x.failf("slice [%d:%d] is %s, %v", i, j, short(got), err)
			}
		})
	case "set":
		var i, h = x.at(), x.hash()
		var l = append([]cipher.SHA256(nil), x.list...)
		l[i] = h
		if rapid.Bool().Draw(x.t, "by value") {
			var e = elemOf(3)
			l[i] = cipher.SumSHA256(encoder.Serialize(e))
			x.op(op, true, func() error { return x.r.SetValueByIndex(x.p, i, e) }, x.set(l), l)
			return
		}
		x.op(op, true, func() error { return x.r.SetHashByIndex(x.p, i, h) }, x.set(l), l)
	case "delete":
		var i = x.at()
		var l = append(append([]cipher.SHA256(nil), x.list[:i]...), x.list[i+1:]...)
		x.op(op, true, func() error { return x.r.DeleteByIndex(x.p, i) }, x.set(l), l)
	case "delete hash":
		var h = x.list[x.at()]
		// elements are deleted one by one
		var steps [][]cipher.SHA256
		var l = x.list
		for i := len(l) - 1; i >= 0; i-- {
			if l[i] == h {
				l = append(append([]cipher.SHA256(nil), l[:i]...), l[i+1:]...)
				steps = append(steps, l)
			}
		}
		x.op(op, true, func() error { return x.r.DeleteByHash(x.p, h) }, x.set(l), steps...)
	case "get":
		var i = x.at()
		var h cipher.SHA256
		x.op(op, false, func() (err error) { h, err = x.r.HashByIndex(x.p, i); return }, func() {
			if h != x.list[i] {
				x.failf("HashByIndex(%d) is %s", i, h.Hex()[:8])
			}
		})
	case "value":
		var i = x.at()
		var e, want elem
		var val, ok = x.p.m[x.list[i]]
		if !ok {
			return
		}
		if _, err := encoder.DeserializeRaw(val, &want); err != nil {
			return
		}
		var by = rapid.IntRange(0, 2).Draw(x.t, "by")
		x.op(op, false, func() (err error) {
			switch by {
			case 0:
				_, err = x.r.ValueByIndex(x.p, i, &e)
			case 1:
				_, err = x.r.ValueOfHashWithIndex(x.p, x.list[i], &e)
			default:
				err = x.r.ValueByHash(x.p, x.list[i], &e)
			}
			return
		}, func() {
			if e != want {
				x.failf("value of %d is %v, want %v", i, e, want)
			}
		})
	case "find":
		var h = x.list[x.at()]
		var n, first int
		for i, e := range x.list {
			if e == h {
				if n == 0 {
					first = i
				}
				n++
			}
		}
		switch rapid.IntRange(0, 2).Draw(x.t, "how") {
		case 0:
			var ok bool
			x.op(op, false, func() (err error) { ok, err = x.r.HasHash(x.p, h); return }, func() {
				if !ok {
					x.failf("HasHash is false")
				}
			})
		case 1:
			var i int
			x.op(op, false, func() (err error) { i, err = x.r.IndexOfHash(x.p, h); return }, func() {
				if i < 0 || i >= len(x.list) || x.list[i] != h {
					x.failf("IndexOfHash is %d, the first is %d", i, first)
				}
			})
		default:
			var is []int
			x.op(op, false, func() (err error) { is, err = x.r.IndicesByHash(x.p, h); return }, func() {
				if len(is) != n {
					x.failf("IndicesByHash gives %d of %d", len(is), n)
				}
			})
		}
	case "ascend", "descend":
		var got []cipher.SHA256
		var fn = func(i int, h cipher.SHA256) error {
			if i < 0 || i >= len(x.list) || x.list[i] != h {
				x.failf("%s gives a wrong element at %d", op, i)
			}
			got = append(got, h)
			return nil
		}
		x.op(op, false, func() error {
			if op == "ascend" {
				return x.r.Ascend(x.p, fn)
			}
			return x.r.Descend(x.p, fn)
		}, func() {
			if len(got) != len(x.list) {
				x.failf("%s gives %d elements", op, len(got))
			}
		})
	case "tree":
		var s string
		x.op(op, false, func() (err error) { s, err = x.r.Tree(x.p, true); return }, func() {
			for _, h := range x.list {
				if !strings.Contains(s, h.Hex()[:7]) {
					x.failf("Tree does not show %s", h.Hex()[:7])
				}
			}
		})
	}
}

// TestR08 works with a references tree while the store fails
func TestR08(t *testing.T) {
	pbt.Check(t, "failing store", 20000, 250000, func(t *rapid.T, c *pbt.Case) {
		var x = &faultsCase{t: t, c: c, r: new(registry.Refs)}
		var deg = registry.Degree(rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "degree"))
		x.p = &faulty{pack: newPack(nil, deg, 0), left: -1}
		if rapid.IntRange(0, 2).Draw(t, "index") == 0 {
			x.p.flags |= registry.HashTableIndex
		}
		if rapid.IntRange(0, 2).Draw(t, "entire") == 0 {
			x.p.flags |= registry.EntireRefs
		}
		if rapid.IntRange(0, 2).Draw(t, "lazy") == 0 {
			x.p.flags |= registry.LazyUpdating
		}
		for v := 0; v < 10; v++ {
			var k, _ = x.p.Add(encoder.Serialize(elemOf(v)))
			x.elem = append(x.elem, k)
		}
		x.elem = append(x.elem, cipher.SHA256{})
		for i, n := 0, rapid.IntRange(1, 20).Draw(t, "operations"); i < n && len(x.list) < 300; i++ {
			x.step()
			if x.p.bad != nil {
				x.failf("%v", x.p.bad)
			}
		}
		x.p.left = -1
		if err := x.r.Rebuild(x.p); err != nil {
			x.failf("Rebuild: %v", err)
		}
		var got, _, err = readTree(x.p.m, x.r.Hash, nil)
		if err != nil || !equal(got, x.list) {
			x.failf("finally the stored tree is %s, %v", short(got), err)
		}
		if x.failedReads > 0 && x.failedWrites > 0 {
			c.NonTrivial()
		}
		if x.failedReads > 0 {
			c.Class("reading failed")
		}
		if x.failedWrites > 0 {
			c.Class("changing failed")
		}
	})
}

// TestR08Values gives failures to references to single values and to walks
func TestR08Values(t *testing.T) {
	pbt.Check(t, "failing store, values", 8000, 80000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{MaxTypes: 4})
		var g = drawGraph(t, w, 8)
		var r, cs = drawRoot(t, w, g)
		c.Note("%s; %d objects", w, len(g.List))
		var p = &faulty{pack: newPack(decoded(t, w.Reg), 16, 0), left: -1}
		p.m = g.Store()

		var typ = rapid.IntRange(0, len(w.Types)-1).Draw(t, "type")
		var v = w.DrawValue(t, w.Types[typ], g, "")
		var obj = v.V.Interface()
		var failing = func() { p.left, p.all, p.hits = 0, true, 0 }
		var ok = func() { p.left = -1 }

		// references keep what they had
		var before = cipher.SHA256{7}
		var ref = registry.Ref{Hash: before}
		failing()
		if err := ref.SetValue(p, obj); err != errFault || ref.Hash != before {
			t.Fatalf("Ref.SetValue: %v, hash is %s", err, ref.Short())
		}
		var dr = registry.Dynamic{Hash: before, Schema: w.SchemaRef(typ)}
		if err := dr.SetValue(p, obj); err != errFault || dr.Hash != before || dr.Schema != w.SchemaRef(typ) {
			t.Fatalf("Dynamic.SetValue: %v, %s", err, dr.Short())
		}
		ok()
		if err := ref.SetValue(p, obj); err != nil {
			t.Fatal(err)
		}
		if err := dr.SetValue(p, obj); err != nil {
			t.Fatal(err)
		}
		failing()
		if err := ref.Value(p, reflect.New(v.D.T).Interface()); err != errFault {
			t.Fatalf("Ref.Value: %v", err)
		}
		if err := dr.Value(p, reflect.New(v.D.T).Interface()); err != errFault {
			t.Fatalf("Dynamic.Value: %v", err)
		}
		ok()

		// a walk fails after what it has visited
		var all []string
		var wk = &gen.Walker{G: g, Func: func(v gen.Visit) (bool, error) {
			all = append(all, v.String())
			if len(all) > 2000 {
				return false, registry.ErrStopIteration
			}
			return true, nil
		}}
		for _, ch := range cs {
			if err := wk.WalkChild(ch); err != nil {
				t.Skip("too big")
			}
		}
		var seen []string
		p.left, p.all, p.hits = rapid.IntRange(0, 12).Draw(t, "fails after"), rapid.Bool().Draw(t, "all"), 0
		var err = r.Walk(p, func(h cipher.SHA256, depth int) (bool, error) {
			seen = append(seen, gen.Visit{Hash: h, Depth: depth}.String())
			return true, nil
		})
		ok()
		if len(seen) > len(all) || strings.Join(seen, " ") != strings.Join(all[:len(seen)], " ") {
			t.Fatalf("walk with a failure: %v is not a beginning of %v", seen, all)
		}
		if p.hits > 0 {
			c.NonTrivial()
			if err == nil || !strings.Contains(err.Error(), errFault.Error()) {
				t.Fatalf("the store fails, but the walk returns %v", err)
			}
		} else if err != nil || len(seen) != len(all) {
			t.Fatalf("walk: %v, %d of %d", err, len(seen), len(all))
		}
		// printing shows the failure and the rest
		p.left, p.all, p.hits = rapid.IntRange(0, 6).Draw(t, "fails after"), false, 0
		out, err := r.Tree(p)
		if err != nil {
			t.Fatalf("Tree: %v", err)
		}
		if shown := strings.Count(out, errFault.Error()); shown != p.hits {
			t.Fatalf("the store failed %d times, but the tree shows %d:\n%s", p.hits, shown, out)
		}
	})
}
