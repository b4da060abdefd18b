package tsky

import (
	"fmt"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// TestS13 is about the limit of size of an object
func TestS13(t *testing.T) {
	pbt.Check(t, "limit of size", 600, 8000, func(t *rapid.T, c *pbt.Case) {
		var h = &hist{t: t, c: c, p: newPool(), feeds: map[cipher.PubKey]map[uint64]*headInfo{}, present: map[hash]bool{}}
		h.db = memDB()
		defer h.finish()
		var limit = len(regs[0].Encode()) + rapid.SampledFrom([]int{0, 1, 500, 3000}).Draw(t, "limit")
		if limit < 1024 {
			limit = 1024
		}
		var open = func(limit int, check bool) (err error) {
			h.conf = h.config()
			h.conf.DB = h.db.db()
			h.conf.MaxObjectSize, h.conf.CheckSizes = limit, check
			if rapid.Bool().Draw(t, "cache everything") {
				h.conf.CacheMaxItemSize = int(float64(h.conf.CacheMaxVolume) * (1 - h.conf.CacheCleaning))
			}
			h.must(h.conf.Validate(), "validate configs")
			h.sc, err = skyobject.NewContainer(h.conf)
			return
		}
		h.must(open(limit, rapid.Bool().Draw(t, "check sizes")), "open")
		h.addFeed()
		var i = h.pks()[0]
		var want = map[hash]int{} // sizes of objects that should be stored
		var must = func(what string, k hash, size int, err error) (ok bool) {
			if ok = size <= limit; ok {
				h.must(err, what)
				want[k] = size
			} else {
				var e, is = err.(*skyobject.ObjectIsTooLargeError)
				if !is {
					h.failf("%s of %d bytes: %v", what, size, err)
				}
				if e.Hash() != k {
					h.failf("%s of %d bytes: error has another hash", what, size)
				}
				c.NonTrivial()
			}
			if _, _, err := h.sc.Get(k, 0); (err == nil) != ok || err != nil && err != data.ErrNotFound {
				h.failf("get after %s of %d bytes: %v", what, size, err)
			}
			return
		}
		var size = func() int {
			switch rapid.IntRange(0, 3).Draw(t, "size") {
			case 0:
				return rapid.IntRange(300, limit+100).Draw(t, "bytes")
			case 1:
				return 2 * limit
			}
			return limit + rapid.IntRange(-1, 1).Draw(t, "around")
		}
		var seq uint64
		for n := rapid.IntRange(1, 10).Draw(t, "ops"); n > 0; n-- {
			var way = rapid.SampledFrom([]string{"set", "pack", "add", "unpack", "value", "append", "wanted", "root", "fill", "fill root", "fill registry"}).Draw(t, "way")
			var sz = size()
			var k = h.p.leaf(sz - 9)
			var val = h.p.vals[k]
			h.note("%s %d of %d", way, sz, limit)
			c.Class(way)
			switch way {
			case "set":
				var _, err = h.sc.Set(k, val, 1)
				must(way, k, sz, err)
			case "pack", "add":
				var p, err = h.sc.Pack(new(registry.Root), regs[0])
				h.must(err, "Pack")
				if way == "pack" {
					err = p.Set(k, val)
				} else {
					_, err = p.Add(val)
				}
				must(way, k, sz, err)
			case "unpack", "value", "append":
				var up, err = h.sc.Unpack(keys[i].sk, regs[0])
				h.must(err, "Unpack")
				var l = Leaf{tLeaf, h.p.n + h.p.salt, string(val[9:])}
				switch way {
				case "unpack":
					err = up.Set(k, val)
				case "value":
					var r registry.Ref
					err = r.SetValue(up, &l)
				default:
					var r registry.Refs
					err = r.AppendValues(up, &l)
				}
				must(way, k, sz, err)
				h.must(up.Close(), "close Unpack")
			case "wanted":
				var gc = make(chan skyobject.Object, 1)
				h.must(h.sc.Want(k, gc, 1), "Want")
				var _, err = h.sc.SetWanted(k, val)
				if must(way, k, sz, err) {
					if x := <-gc; x.Err != nil || string(x.Val) != string(val) {
						h.failf("received %d bytes, error %v", len(x.Val), x.Err)
					}
					h.must(h.sc.Finc(k, 1), "Finc")
				} else if x := <-gc; x.Err == nil {
					h.failf("too large object is received")
				}
			case "root":
				// encoded root is of this size
				var up, err = h.sc.Unpack(keys[i].sk, regs[0])
				h.must(err, "Unpack")
				var r = new(registry.Root)
				r.Pub, r.Nonce = keys[i].pk, 1
				r.Descriptor = make([]byte, sz-len(r.Encode()))
				if err = h.sc.Save(up, r); err == nil {
					seq = r.Seq + 1
				}
				must(way, hashOf(r.Encode()), len(r.Encode()), err)
				h.must(up.Close(), "close Unpack")
				if err != nil {
					if x, err := h.sc.LastRoot(keys[i].pk, 1); err == nil && x.Seq >= seq {
						h.failf("too large root is saved")
					}
				}
			default:
				var r = new(registry.Root)
				r.Pub, r.Nonce, r.Seq, r.Time = keys[i].pk, 2, seq, int64(n)
				seq++
				r.Prev = hash{1}
				if r.Seq == 0 {
					r.Prev = hash{}
				}
				var reg = regs[0]
				switch way {
				case "fill":
					r.Refs = append(r.Refs, h.p.dynamicOf(h.p.leaf(10)), h.p.dynamicOf(k))
				case "fill registry":
					reg = bigRegistry(sz)
					k = hash(reg.Reference())
					h.p.vals[k] = reg.Encode()
					if sz = len(h.p.vals[k]); sz <= limit && rapid.Bool().Draw(t, "exactly") {
						c.Class("registry within")
					}
				}
				h.p.vals[hash(reg.Reference())] = reg.Encode()
				r.Reg = reg.Reference()
				if way == "fill root" {
					r.Descriptor = make([]byte, sz-len(r.Encode()))
					k = hashOf(r.Encode())
				}
				h.sign(i, r)
				var x = h.receive(r)
				var s = h.source(inPool(h.p))
				s.start(2)
				var f = h.sc.Fill(x, s.rq, 2)
				var err error
				pbt.Within(hangs, "filling", func() { err = f.Run() })
				f.Close()
				s.stop()
				must(way, k, sz, err)
				if x.IsFull != (err == nil) {
					h.failf("filled with %v, but IsFull is %v", err, x.IsFull)
				}
			}
		}
		// what is stored
		var biggest int
		var _, vs = h.content()
		for k, v := range vs {
			if len(v) > limit {
				h.failf("object %s of %d bytes is stored, limit is %d", short(k), len(v), limit)
			}
			if len(v) > biggest {
				biggest = len(v)
			}
		}
		for k, size := range want {
			if len(vs[k]) != size {
				h.failf("object of %d bytes is lost, there are %d bytes", size, len(vs[k]))
			}
		}
		h.must(h.sc.Close(), "close")
		h.sc = nil
		// other limit
		if biggest < 1026 {
			return
		}
		var next = biggest + rapid.IntRange(-2, 1).Draw(t, "next limit")
		h.note("biggest %d, next limit %d", biggest, next)
		var err = open(next, true)
		if next >= biggest {
			h.must(err, "open with enough limit")
			return
		}
		if e, ok := err.(*skyobject.ObjectIsTooLargeError); !ok || len(vs[e.Hash()]) <= next {
			h.failf("opened with limit %d, but there is an object of %d bytes: %v", next, biggest, err)
		}
		h.sc = nil
		c.Class("not opened")
		h.must(open(next, false), "open without checking")
	})
}

// bigRegistry is about the size
func bigRegistry(size int) (reg *registry.Registry) {
	for n := size / 60; n >= 0; n-- {
		reg = registry.NewRegistry(func(r *registry.Reg) {
			r.Register("t.Leaf", Leaf{})
			for i := 0; i < n; i++ {
				r.Register(fmt.Sprintf("t.Big%d", i), struct{ A uint32 }{})
			}
		})
		if len(reg.Encode()) <= size+30 {
			return
		}
	}
	return
}
