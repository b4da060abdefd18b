package treg

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

type elem struct {
	N    uint64
	Text string
}

func elemOf(n int) elem { return elem{uint64(n) * 0x0101, strings.Repeat("x", n%5)} }

func short(l []cipher.SHA256) string {
	var b strings.Builder
	for i, h := range l {
		if i > 40 {
			fmt.Fprintf(&b, "...%d", len(l))
			break
		}
		b.WriteString(h.Hex()[:2])
	}
	return b.String()
}

func equal(a, b []cipher.SHA256) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var errStopTest = errors.New("error of the walking function")

// refsCase is a references tree with its model
type refsCase struct {
	t *rapid.T
	c *pbt.Case

	p *pack
	r *registry.Refs

	list   []cipher.SHA256
	degree registry.Degree // expected degree of r
	flags  registry.Flags  // flags of r
	dirty  bool            // LazyUpdating and not rebuilt
	canon  bool            // no removals

	alphabet []cipher.SHA256
	values   map[cipher.SHA256]int
	known    map[cipher.SHA256][]cipher.SHA256 // hash of a tree -> sequence

	removed, deep bool
	nested        int
}

func (x *refsCase) lazy() bool { return x.flags&registry.LazyUpdating != 0 }

func (x *refsCase) failf(format string, args ...interface{}) {
	x.t.Helper()
	x.t.Fatalf("%s\n  sequence (%d): %s", fmt.Sprintf(format, args...), len(x.list), short(x.list))
}

func (x *refsCase) must(err error, what string) {
	x.t.Helper()
	if err != nil {
		x.failf("%s: %v", what, err)
	}
}

func (x *refsCase) mustErr(err error, what string) {
	x.t.Helper()
	if err == nil {
		x.failf("%s: no error", what)
	}
}

func (x *refsCase) hash() cipher.SHA256 {
	return rapid.SampledFrom(x.alphabet).Draw(x.t, "hash")
}

// index that is in range usually
func (x *refsCase) index() int {
	if len(x.list) == 0 || rapid.IntRange(0, 9).Draw(x.t, "out of range") == 0 {
		return rapid.SampledFrom([]int{-1, len(x.list), len(x.list) + 1, len(x.list) * 2, -len(x.list) - 1, 1 << 40}).
			Draw(x.t, "index")
	}
	switch rapid.IntRange(0, 5).Draw(x.t, "edge") {
	case 0:
		return 0
	case 1:
		return len(x.list) - 1
	}
	return rapid.IntRange(0, len(x.list)-1).Draw(x.t, "index")
}

func (x *refsCase) hashes(max int) (hs []cipher.SHA256) {
	var n = rapid.IntRange(0, max).Draw(x.t, "n")
	if rapid.IntRange(0, 2).Draw(x.t, "unique") == 0 {
		var base = rapid.IntRange(0, 1<<20).Draw(x.t, "base")
		for i := 0; i < n; i++ {
			hs = append(hs, cipher.SumSHA256([]byte(fmt.Sprint(base+i))))
		}
		return
	}
	for i := 0; i < n; i++ {
		hs = append(hs, x.hash())
	}
	return
}

func (x *refsCase) changed() {
	x.dirty = x.dirty || x.lazy()
}

// valid index?
func (x *refsCase) in(i int) bool { return i >= 0 && i < len(x.list) }

// check everything that can be observed without changes
func (x *refsCase) check(full bool) {
	x.t.Helper()
	if x.p.bad != nil {
		x.failf("%v", x.p.bad)
	}
	ln, err := x.r.Len(x.p)
	x.must(err, "Len")
	if ln != len(x.list) {
		x.failf("Len is %d, want %d", ln, len(x.list))
	}
	if d, err := x.r.Degree(x.p); err != nil || d != x.degree {
		x.failf("Degree is %d (%v), want %d", d, err, x.degree)
	}
	if f := x.r.Flags(); f != x.flags {
		x.failf("Flags are %d, want %d", f, x.flags)
	}
	if full {
		var got []cipher.SHA256
		err = x.r.Ascend(x.p, func(i int, h cipher.SHA256) error {
			if i != len(got) {
				x.failf("Ascend: index %d instead of %d", i, len(got))
			}
			got = append(got, h)
			return nil
		})
		x.must(err, "Ascend")
		if !equal(got, x.list) {
			x.failf("Ascend gives %s", short(got))
		}
	}
	if x.dirty {
		return
	}
	x.stored()
}

// the tree as it is in the store
func (x *refsCase) stored() {
	x.t.Helper()
	if blank := x.r.Hash == (cipher.SHA256{}); blank != (len(x.list) == 0) {
		x.failf("Hash is blank: %v", blank)
	}
	if l, ok := x.known[x.r.Hash]; ok {
		if !equal(l, x.list) {
			x.failf("the same Hash %s for another sequence: %s", x.r.Short(), short(l))
		}
	} else {
		x.known[x.r.Hash] = append([]cipher.SHA256(nil), x.list...)
	}
	got, root, err := readTree(x.p.m, x.r.Hash, nil)
	x.must(err, "the stored tree")
	if !equal(got, x.list) {
		x.failf("the stored tree is %s", short(got))
	}
	if len(x.list) > 0 && root.degree != int(x.degree) {
		x.failf("degree of the stored tree is %d, want %d", root.degree, x.degree)
	}
	if root.depth >= 2 {
		x.deep = true
	}
	if x.canon && len(x.list) > 0 {
		var f registry.Refs
		var p = newPack(nil, x.degree, 0)
		x.must(f.AppendHashes(p, x.list...), "AppendHashes to fresh")
		if f.Hash != x.r.Hash {
			x.failf("Hash depends on the history: %s, but a fresh tree is %s", x.r.Short(), f.Short())
		}
	}
}

func (x *refsCase) del(i int) {
	x.list = append(append([]cipher.SHA256(nil), x.list[:i]...), x.list[i+1:]...)
	x.canon = false
	x.removed = true
	x.changed()
}

func (x *refsCase) appendModel(hs ...cipher.SHA256) {
	if len(hs) == 0 {
		return
	}
	x.list = append(append([]cipher.SHA256(nil), x.list...), hs...)
	x.changed()
}

// other returns another references tree
func (x *refsCase) other() (r *registry.Refs, hs []cipher.SHA256) {
	r = new(registry.Refs)
	hs = x.hashes(int(x.degree) * 3)
	var p = x.p.on(registry.Degree(rapid.IntRange(2, 5).Draw(x.t, "other degree")), x.drawFlags())
	x.must(r.AppendHashes(p, hs...), "AppendHashes to other")
	return
}

func (x *refsCase) drawFlags() (f registry.Flags) {
	if rapid.Bool().Draw(x.t, "index flag") {
		f |= registry.HashTableIndex
	}
	if rapid.Bool().Draw(x.t, "entire flag") {
		f |= registry.EntireRefs
	}
	if rapid.IntRange(0, 2).Draw(x.t, "lazy flag") == 0 {
		f |= registry.LazyUpdating
	}
	return
}

var mutations = []string{"append", "append", "append", "append one", "append values", "append tree",
	"set", "set", "set value", "delete", "delete", "delete", "delete hash", "degree", "clear", "slice"}

var others = []string{"rebuild", "rebuild", "reset", "reopen", "get", "find", "ascend", "descend", "slices", "loop", "loop",
	"tree"}

// mutate makes a change, iterating inside an iteration
func (x *refsCase) mutate(op string, iterating bool) {
	x.t.Helper()
	switch op {

	case "append", "append one":
		var n = int(x.degree)*int(x.degree) + 2
		if iterating {
			n = 3
		}
		if op == "append one" {
			n = 1
		}
		if n > 80 {
			n = 80
		}
		var hs = x.hashes(n)
		x.c.Note("append %d", len(hs))
		x.must(x.r.AppendHashes(x.p, hs...), "AppendHashes")
		x.appendModel(hs...)

	case "append values":
		var vals []interface{}
		var hs []cipher.SHA256
		for i, n := 0, rapid.IntRange(0, 4).Draw(x.t, "n"); i < n; i++ {
			switch v := rapid.IntRange(0, 7).Draw(x.t, "value"); v {
			case 0:
				vals, hs = append(vals, nil), append(hs, cipher.SHA256{})
			case 1:
				vals, hs = append(vals, (*elem)(nil)), append(hs, cipher.SHA256{})
			default:
				var e = elemOf(v)
				vals, hs = append(vals, e), append(hs, cipher.SumSHA256(encoder.Serialize(e)))
			}
		}
		x.c.Note("append %d values", len(vals))
		x.must(x.r.AppendValues(x.p, vals...), "AppendValues")
		x.appendModel(hs...)

	case "append tree":
		var o, hs = x.other()
		x.c.Note("append tree of %d", len(hs))
		x.must(x.r.Append(x.p, o), "Append")
		x.appendModel(hs...)

	case "set", "set value":
		var i = x.index()
		var h cipher.SHA256
		var err error
		if op == "set" {
			h = x.hash()
			x.c.Note("set %d", i)
			err = x.r.SetHashByIndex(x.p, i, h)
		} else {
			var v = rapid.IntRange(1, 7).Draw(x.t, "value")
			x.c.Note("set value %d", i)
			if v == 1 {
				err = x.r.SetValueByIndex(x.p, i, nil)
			} else {
				var e = elemOf(v)
				h = cipher.SumSHA256(encoder.Serialize(e))
				err = x.r.SetValueByIndex(x.p, i, e)
			}
		}
		if !x.in(i) {
			x.mustErr(err, "SetHashByIndex out of range")
			return
		}
		x.must(err, "SetHashByIndex")
		if x.list[i] != h {
			x.list = append([]cipher.SHA256(nil), x.list...)
			x.list[i] = h
			x.changed()
		}

	case "delete":
		var i = x.index()
		x.c.Note("delete %d", i)
		var err = x.r.DeleteByIndex(x.p, i)
		if !x.in(i) {
			x.mustErr(err, "DeleteByIndex out of range")
			return
		}
		x.must(err, "DeleteByIndex")
		x.del(i)

	case "delete hash":
		var h = x.hash()
		if len(x.list) > 0 && rapid.Bool().Draw(x.t, "present") {
			h = x.list[rapid.IntRange(0, len(x.list)-1).Draw(x.t, "which")]
		}
		var l []cipher.SHA256
		for _, e := range x.list {
			if e != h {
				l = append(l, e)
			}
		}
		x.c.Note("delete %d by hash", len(x.list)-len(l))
		var err = x.r.DeleteByHash(x.p, h)
		if len(l) == len(x.list) {
			if err != registry.ErrNotFound {
				x.failf("DeleteByHash of missing hash: %v", err)
			}
			return
		}
		x.must(err, "DeleteByHash")
		x.list, x.canon, x.removed = l, false, true
		x.changed()

	case "degree":
		var d = registry.Degree(rapid.SampledFrom([]int{2, 3, 4, 5, 8, 16, 1024, 0, 1, -3, 1025}).Draw(x.t, "degree"))
		x.c.Note("degree %d", d)
		var err = x.r.SetDegree(x.p, d)
		if d < 2 || d > 1024 {
			if err != registry.ErrInvalidDegree {
				x.failf("SetDegree(%d): %v", d, err)
			}
			return
		}
		x.must(err, "SetDegree")
		if len(x.list) > 0 && !x.dirty {
			x.canon = true
		}
		x.degree = d
		x.changed()

	case "clear":
		if rapid.IntRange(0, 3).Draw(x.t, "really") != 0 {
			return
		}
		x.c.Note("clear")
		x.r.Clear()
		if !iterating && x.r.Hash != (cipher.SHA256{}) {
			x.failf("Hash is not blank after Clear")
		}
		x.must(x.r.Init(x.p), "Init") // with settings of the pack
		x.list, x.degree, x.flags = nil, x.p.deg, x.p.flags
		x.dirty, x.canon = false, true

	case "slice":
		if iterating {
			return
		}
		var i, j = x.index(), x.index()
		if j < i && rapid.IntRange(0, 3).Draw(x.t, "swap") != 0 {
			i, j = j, i
		}
		if rapid.Bool().Draw(x.t, "to the end") {
			j = len(x.list)
		}
		x.c.Note("slice %d:%d", i, j)
		var s, err = x.r.Slice(x.p, i, j)
		if i < 0 || j > len(x.list) || i > j {
			x.mustErr(err, "Slice out of range")
			return
		}
		x.must(err, "Slice")
		x.check(true) // origin is the same
		x.r = s
		x.list = append([]cipher.SHA256(nil), x.list[i:j]...)
		x.dirty, x.canon = false, true

	default:
		panic(op)
	}
}

func (x *refsCase) other1(op string) {
	x.t.Helper()
	switch op {

	case "rebuild":
		var depth, err = x.r.Depth(x.p)
		x.must(err, "Depth")
		x.c.Note("rebuild")
		x.must(x.r.Rebuild(x.p), "Rebuild")
		x.dirty = false
		var min = 1
		for n := int(x.degree); n < len(x.list); n *= int(x.degree) {
			min++
		}
		now, err := x.r.Depth(x.p)
		x.must(err, "Depth")
		if now != min {
			x.failf("Depth is %d after Rebuild, can be %d", now, min)
		}
		if depth != min {
			x.canon = true
		}

	case "reset", "reopen":
		if x.dirty {
			x.must(x.r.Rebuild(x.p), "Rebuild")
			x.dirty = false
		}
		x.p.deg = registry.Degree(rapid.SampledFrom([]int{2, 3, 4, 7}).Draw(x.t, "default degree"))
		x.p.flags = x.drawFlags()
		x.c.Note("%s with flags %d", op, x.p.flags)
		if op == "reset" {
			x.must(x.r.Reset(), "Reset")
		} else {
			// as if it was received
			var b = encoder.Serialize(x.r)
			if len(b) != 32 {
				x.failf("encoded Refs has %d bytes", len(b))
			}
			var r registry.Refs
			if _, err := encoder.DeserializeRaw(b, &r); err != nil {
				x.failf("decoding: %v", err)
			}
			if r.Hash != x.r.Hash {
				x.failf("Hash after decoding is another")
			}
			x.r = &r
		}
		if x.r.Flags() != 0 {
			x.failf("flags of not initialized Refs")
		}
		x.must(x.r.Init(x.p), "Init")
		x.flags = x.p.flags
		if len(x.list) == 0 {
			x.degree, x.canon = x.p.deg, true // nothing else is stored
		}

	case "get":
		for k := 0; k < 3; k++ {
			var i = x.index()
			h, err := x.r.HashByIndex(x.p, i)
			if !x.in(i) {
				x.mustErr(err, "HashByIndex out of range")
				continue
			}
			x.must(err, "HashByIndex")
			if h != x.list[i] {
				x.failf("HashByIndex(%d) is %s", i, h.Hex()[:8])
			}
			var e elem
			h, err = x.r.ValueByIndex(x.p, i, &e)
			if h != x.list[i] {
				x.failf("hash of ValueByIndex(%d) is %s", i, h.Hex()[:8])
			}
			x.value(h, &e, err, "ValueByIndex")
		}

	case "find":
		var h = x.hash()
		if len(x.list) > 0 && rapid.IntRange(0, 2).Draw(x.t, "present") > 0 {
			h = x.list[rapid.IntRange(0, len(x.list)-1).Draw(x.t, "which")]
		}
		var want []int
		for i, e := range x.list {
			if e == h {
				want = append(want, i)
			}
		}
		ok, err := x.r.HasHash(x.p, h)
		if err != nil || ok != (len(want) > 0) {
			x.failf("HasHash: %v, %v, want %v", ok, err, want)
		}
		i, err := x.r.IndexOfHash(x.p, h)
		is, errs := x.r.IndicesByHash(x.p, h)
		var e, e2 elem
		errv := x.r.ValueByHash(x.p, h, &e)
		iv, errvi := x.r.ValueOfHashWithIndex(x.p, h, &e2)
		if len(want) == 0 {
			for _, err := range []error{err, errs, errv, errvi} {
				if err != registry.ErrNotFound {
					x.failf("lookup of missing hash: %v", err)
				}
			}
			return
		}
		x.must(err, "IndexOfHash")
		x.must(errs, "IndicesByHash")
		if !x.in(i) || x.list[i] != h {
			x.failf("IndexOfHash is %d, want one of %v", i, want)
		}
		sort.Ints(is)
		if fmt.Sprint(is) != fmt.Sprint(want) {
			x.failf("IndicesByHash is %v, want %v", is, want)
		}
		x.value(h, &e, errv, "ValueByHash")
		x.value(h, &e2, errvi, "ValueOfHashWithIndex")
		if (errvi == nil || h == (cipher.SHA256{})) && (!x.in(iv) || x.list[iv] != h) {
			x.failf("ValueOfHashWithIndex is %d, want one of %v", iv, want)
		}

	case "ascend", "descend":
		var from = x.index()
		var stop = rapid.IntRange(0, len(x.list)+1).Draw(x.t, "stop after")
		var ret = rapid.SampledFrom([]error{registry.ErrStopIteration, errStopTest}).Draw(x.t, "stop with")
		var want, got []string
		var fn = func(i int, h cipher.SHA256) error {
			got = append(got, fmt.Sprintf("%d:%s", i, h.Hex()[:6]))
			if len(got) == stop {
				return ret
			}
			return nil
		}
		var err error
		var whole = rapid.Bool().Draw(x.t, "whole")
		if op == "ascend" {
			if whole {
				from = 0
				err = x.r.Ascend(x.p, fn)
			} else {
				err = x.r.AscendFrom(x.p, from, fn)
			}
			if x.in(from) {
				for i := from; i < len(x.list); i++ {
					want = append(want, fmt.Sprintf("%d:%s", i, x.list[i].Hex()[:6]))
				}
			}
		} else {
			if whole {
				from = len(x.list) - 1
				err = x.r.Descend(x.p, fn)
			} else {
				err = x.r.DescendFrom(x.p, from, fn)
			}
			if x.in(from) {
				for i := from; i >= 0; i-- {
					want = append(want, fmt.Sprintf("%d:%s", i, x.list[i].Hex()[:6]))
				}
			}
		}
		var stopped = stop > 0 && stop <= len(want)
		if stopped {
			want = want[:stop]
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.failf("%s from %d gives %v, want %v", op, from, got, want)
		}
		switch {
		case stopped && ret == errStopTest:
			if err != errStopTest {
				x.failf("%s: error of the function is lost: %v", op, err)
			}
		case whole || x.in(from):
			x.must(err, op)
		case op == "ascend" && from == 0: // empty
			x.must(err, op)
		default:
			x.mustErr(err, op+" out of range")
		}

	case "slices":
		var i, j = x.index(), x.index()
		var s, err = x.r.Slice(x.p, i, j)
		if i < 0 || j < 0 || j > len(x.list) || i > len(x.list) || i > j {
			x.mustErr(err, "Slice out of range")
			return
		}
		x.must(err, "Slice")
		var o = &refsCase{t: x.t, c: x.c, p: x.p, r: s, list: x.list[i:j], degree: x.degree, flags: x.flags,
			canon: true, known: x.known}
		o.check(true)

	case "loop":
		x.loop()

	case "tree":
		var force = rapid.Bool().Draw(x.t, "force")
		var s, err = x.r.Tree(x.p, force)
		x.must(err, "Tree")
		if force {
			for _, h := range x.list {
				if !strings.Contains(s, h.Hex()[:7]) {
					x.failf("Tree does not show element %s", h.Hex()[:7])
				}
			}
			if !strings.Contains(s, fmt.Sprintf("length: %d", len(x.list))) {
				x.failf("Tree does not show the length")
			}
		}

	default:
		panic(op)
	}
}

// value read from the tree
func (x *refsCase) value(h cipher.SHA256, e *elem, err error, what string) {
	x.t.Helper()
	if h == (cipher.SHA256{}) {
		if err != registry.ErrRefsElementIsNil {
			x.failf("%s of blank element: %v", what, err)
		}
		return
	}
	var v, ok = x.values[h]
	if !ok {
		x.mustErr(err, what+" of missing object")
		return
	}
	x.must(err, what)
	if *e != elemOf(v) {
		x.failf("%s is %v, want %v", what, *e, elemOf(v))
	}
}

// loop iterates and changes the tree by the way
func (x *refsCase) loop() {
	x.t.Helper()
	x.nested++
	defer func() { x.nested-- }()

	var up = rapid.Bool().Draw(x.t, "ascend")
	var from = 0
	if len(x.list) > 0 {
		from = rapid.IntRange(0, len(x.list)-1).Draw(x.t, "from")
	} else if !up {
		return
	}
	var budget = rapid.IntRange(1, 3).Draw(x.t, "changes")
	var steps int
	var next = from // expected
	var last error
	x.c.Note("loop(up=%v from=%d", up, from)
	var fn = func(i int, h cipher.SHA256) error {
		steps++
		if steps > 400 {
			return registry.ErrStopIteration
		}
		if i != next {
			x.failf("iteration: index %d, want %d", i, next)
		}
		if !x.in(i) || x.list[i] != h {
			x.failf("iteration: wrong hash %s at index %d", h.Hex()[:8], i)
		}
		if up {
			next++
		} else {
			next--
		}
		if budget > 0 && rapid.IntRange(0, 2).Draw(x.t, "do") == 0 {
			budget--
			var op = rapid.SampledFrom(append(mutations, "rebuild", "reset", "loop", "find")).Draw(x.t, "op")
			switch op {
			case "rebuild":
				if err := x.r.Rebuild(x.p); err != registry.ErrRefsIterating {
					x.failf("Rebuild during an iteration: %v", err)
				}
			case "reset":
				if err := x.r.Reset(); err != registry.ErrRefsIterating {
					x.failf("Reset during an iteration: %v", err)
				}
			case "loop":
				if x.nested < 3 {
					x.loop()
				}
			case "find":
				x.other1("find")
			default:
				x.mutate(op, true)
			}
		}
		if rapid.IntRange(0, 30).Draw(x.t, "break") == 0 {
			last = rapid.SampledFrom([]error{registry.ErrStopIteration, errStopTest}).Draw(x.t, "break with")
			return last
		}
		return nil
	}
	var err error
	if up {
		err = x.r.AscendFrom(x.p, from, fn)
	} else {
		err = x.r.DescendFrom(x.p, from, fn)
	}
	x.c.Note(")")
	if steps > 400 {
		x.must(err, "stopped iteration")
		return
	}
	if last != nil {
		if last == errStopTest && err != last || last != errStopTest && err != nil {
			x.failf("iteration stopped with %q returns %v", last, err)
		}
		return
	}
	if up {
		x.must(err, "ascending")
		if next < len(x.list) {
			x.failf("ascending iteration ends at %d of %d", next, len(x.list))
		}
		return
	}
	if next >= len(x.list) && next >= 0 {
		if err != registry.ErrIndexOutOfRange {
			x.failf("descending from index %d of %d: %v", next, len(x.list), err)
		}
		return
	}
	x.must(err, "descending")
	if next >= 0 {
		x.failf("descending iteration ends at %d", next)
	}
}

func newRefsCase(t *rapid.T, c *pbt.Case) (x *refsCase) {
	x = &refsCase{t: t, c: c, canon: true,
		values: make(map[cipher.SHA256]int), known: make(map[cipher.SHA256][]cipher.SHA256)}
	x.degree = registry.Degree(rapid.SampledFrom([]int{2, 2, 2, 3, 3, 4, 5, 16}).Draw(t, "degree"))
	x.p = newPack(nil, x.degree, 0)
	x.p.flags = x.drawFlags()
	x.flags = x.p.flags
	x.r = new(registry.Refs)
	x.alphabet = []cipher.SHA256{{}, cipher.SumSHA256([]byte("missing"))}
	for v := 2; v <= 7; v++ {
		var k, _ = x.p.Add(encoder.Serialize(elemOf(v)))
		x.alphabet = append(x.alphabet, k)
		x.values[k] = v
	}
	for i := 0; i < 6; i++ {
		x.alphabet = append(x.alphabet, cipher.SumSHA256([]byte{byte(i)}))
	}
	c.Note("degree %d flags %d", x.degree, x.flags)
	return
}

func TestR04(t *testing.T) {
	pbt.Check(t, "sequence", 20000, 300000, func(t *rapid.T, c *pbt.Case) {
		pbt.Within(2*time.Minute, "history of a references tree", func() {
			var x = newRefsCase(t, c)
			var n = rapid.IntRange(1, 16).Draw(t, "operations")
			for k := 0; k < n; k++ {
				if rapid.IntRange(0, 9).Draw(t, "kind") < 6 {
					x.mutate(rapid.SampledFrom(mutations).Draw(t, "op"), false)
				} else {
					x.other1(rapid.SampledFrom(others).Draw(t, "op"))
				}
				x.check(true)
				if len(x.list) > 600 {
					break
				}
			}
			x.other1("find")
			x.other1("get")
			x.other1("ascend")
			x.other1("descend")
			if x.removed {
				c.NonTrivial()
			}
			if x.deep {
				c.Class("three levels and more")
			}
		})
	})
}
