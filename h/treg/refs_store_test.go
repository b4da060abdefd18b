package treg

import (
	"fmt"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// reload opens the tree in another process: only objects
// that can be reached from the hash are there
func (x *refsCase) reload(hash cipher.SHA256, list []cipher.SHA256, degree registry.Degree) {
	x.t.Helper()
	var there = make(store)
	var nodes []string
	got, _, err := readTree(x.p.m, hash, func(h cipher.SHA256, depth int) {
		nodes = append(nodes, fmt.Sprintf("%d:%s", depth, h.Hex()[:8]))
		if depth > 0 && h != (cipher.SHA256{}) {
			there[h] = x.p.m[h]
		}
	})
	x.must(err, "the stored tree")
	if !equal(got, list) {
		x.failf("the stored tree of %s is %s, want %s", hash.Hex()[:8], short(got), short(list))
	}
	var p = newPack(nil, registry.Degree(rapid.SampledFrom([]int{2, 3, 9}).Draw(x.t, "default degree")), x.drawFlags())
	p.m, p.readOnly = there, true
	var r = &registry.Refs{Hash: hash}
	var o = &refsCase{t: x.t, c: x.c, p: p, r: r, list: list, degree: degree, flags: p.flags, known: x.known}
	if len(list) == 0 {
		o.degree = p.deg
	}

	// walk before any other access
	if rapid.Bool().Draw(x.t, "walk first") {
		var seen []string
		err = r.Walk(p, nil, func(h cipher.SHA256, depth int) (bool, error) {
			seen = append(seen, fmt.Sprintf("%d:%s", depth, h.Hex()[:8]))
			return depth > 0, nil
		})
		x.must(err, "Walk")
		if fmt.Sprint(seen) != fmt.Sprint(nodes) {
			x.failf("Walk of %s visits %v, want %v", hash.Hex()[:8], seen, nodes)
		}
		if r.Flags() != 0 {
			x.failf("Walk leaves Refs initialized")
		}
	}

	// with lazy loading an access by index loads one branch
	if len(list) > 0 && rapid.Bool().Draw(x.t, "index first") {
		var i = rapid.IntRange(0, len(list)-1).Draw(x.t, "i")
		h, err := r.HashByIndex(p, i)
		x.must(err, "HashByIndex")
		if h != list[i] {
			x.failf("HashByIndex(%d) after loading is %s", i, h.Hex()[:8])
		}
	} else {
		x.must(r.Init(p), "Init")
	}
	if p.flags&(registry.EntireRefs|registry.HashTableIndex) != 0 {
		p.m = nil // everything is loaded already
	}
	o.t = x.t
	if got := o.r.Hash; got != hash {
		x.failf("Hash is changed by loading")
	}
	ln, err := r.Len(p)
	x.must(err, "Len")
	if ln != len(list) {
		x.failf("Len after loading is %d, want %d", ln, len(list))
	}
	var all []cipher.SHA256
	x.must(r.Ascend(p, func(_ int, h cipher.SHA256) error { all = append(all, h); return nil }), "Ascend after loading")
	if !equal(all, list) {
		x.failf("loaded tree is %s, want %s", short(all), short(list))
	}
	if d, err := r.Degree(p); err != nil || d != o.degree {
		x.failf("degree of loaded tree is %d (%v), want %d", d, err, o.degree)
	}
	if p.bad != nil {
		x.failf("%v", p.bad)
	}
}

func TestR05(t *testing.T) {
	type saved struct {
		hash   cipher.SHA256
		list   []cipher.SHA256
		degree registry.Degree
	}
	pbt.Check(t, "stored", 12000, 200000, func(t *rapid.T, c *pbt.Case) {
		pbt.Within(2*time.Minute, "history of a references tree", func() {
			var x = newRefsCase(t, c)
			var versions []saved
			var n = rapid.IntRange(1, 14).Draw(t, "operations")
			for k := 0; k < n; k++ {
				if rapid.IntRange(0, 9).Draw(t, "kind") < 7 {
					x.mutate(rapid.SampledFrom(mutations).Draw(t, "op"), false)
				} else {
					x.other1(rapid.SampledFrom([]string{"rebuild", "reset", "reopen", "loop"}).Draw(t, "op"))
				}
				x.check(false)
				if !x.dirty {
					versions = append(versions, saved{x.r.Hash, x.list, x.degree})
					x.reload(x.r.Hash, x.list, x.degree)
				}
				if len(x.list) > 400 {
					break
				}
			}
			if x.dirty {
				x.other1("rebuild")
				x.check(true)
				versions = append(versions, saved{x.r.Hash, x.list, x.degree})
			}
			// all the versions are there still
			for _, v := range versions {
				x.reload(v.hash, v.list, v.degree)
			}
			if x.deep {
				c.NonTrivial()
			}
			if x.removed {
				c.Class("with removals")
			}
		})
	})
}

// TestR05Canonical: without removals the hash depends on the sequence and
// the degree only
func TestR05Canonical(t *testing.T) {
	pbt.Check(t, "canonical", 4000, 50000, func(t *rapid.T, c *pbt.Case) {
		pbt.Within(2*time.Minute, "building of references trees", func() {
			var n = rapid.IntRange(0, 130).Draw(t, "length")
			var deg = registry.Degree(rapid.IntRange(2, 6).Draw(t, "degree"))
			var list []cipher.SHA256
			for i := 0; i < n; i++ {
				list = append(list, cipher.SumSHA256([]byte{byte(i), byte(i % 3)}))
			}
			c.Note("%d elements, degree %d", n, deg)
			var build = func(deg registry.Degree) (h cipher.SHA256) {
				var x = &refsCase{t: t, c: c, canon: true, degree: deg, known: make(map[cipher.SHA256][]cipher.SHA256)}
				x.p = newPack(nil, deg, 0)
				x.p.flags = x.drawFlags()
				x.flags = x.p.flags
				x.r = new(registry.Refs)
				for rest := list; len(rest) > 0; {
					var k = rapid.IntRange(1, len(rest)).Draw(t, "portion")
					if rapid.Bool().Draw(t, "tree") {
						var o registry.Refs
						x.must(o.AppendHashes(x.p.on(3, 0), rest[:k]...), "AppendHashes")
						x.must(x.r.Append(x.p, &o), "Append")
					} else {
						x.must(x.r.AppendHashes(x.p, rest[:k]...), "AppendHashes")
					}
					x.appendModel(rest[:k]...)
					rest = rest[k:]
					if rapid.Bool().Draw(t, "reload") {
						x.other1("reopen")
						x.degree = deg
						if len(x.list) > 0 {
							x.check(false)
						}
					}
				}
				if len(list) > 0 {
					x.must(x.r.Rebuild(x.p), "Rebuild")
				}
				return x.r.Hash
			}
			var a, b = build(deg), build(deg)
			if a != b {
				t.Fatalf("two histories of appending give %s and %s", a.Hex()[:8], b.Hex()[:8])
			}
			if len(list) > int(deg) {
				c.NonTrivial()
				var o = build(deg + 1)
				if o == a {
					t.Fatalf("trees of degrees %d and %d have the same hash", deg, deg+1)
				}
			}
		})
	})
}
