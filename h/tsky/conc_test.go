package tsky

import (
	"bytes"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// conc is concurrent use of a container
type conc struct {
	h   *hist
	src *source

	mx    sync.Mutex
	bad   []string
	saved []*registry.Root // saved and filled
	extra map[hash]int     // expected counters of objects without roots
}

func (c *conc) fail(format string, args ...interface{}) {
	c.mx.Lock()
	defer c.mx.Unlock()
	if len(c.bad) < 5 {
		c.bad = append(c.bad, fmt.Sprintf(format, args...))
	}
}

func (c *conc) add(r *registry.Root) {
	var x = *r
	x.Refs = append([]registry.Dynamic(nil), r.Refs...)
	c.mx.Lock()
	defer c.mx.Unlock()
	c.saved = append(c.saved, &x)
}

// saver saves prepared roots in the head, one by one
func (c *conc) saver(h *hist) (name string, run func()) {
	var i = rapid.IntRange(0, 2).Draw(h.t, "feed")
	var n = uint64(rapid.IntRange(1, 2).Draw(h.t, "head"))
	type save struct {
		refs []registry.Dynamic
		objs []hash
		anew bool
	}
	var saves []save
	for k := rapid.IntRange(1, 4).Draw(h.t, "saves"); k > 0; k-- {
		var s save
		for j := rapid.IntRange(0, 3).Draw(h.t, "branches"); j > 0; j-- {
			var d = h.p.dynamic(h.t, 3)
			s.refs = append(s.refs, d)
			if d.Hash != (hash{}) {
				s.objs = append(s.objs, h.p.closure(d.Hash)...)
			}
		}
		s.anew = rapid.Bool().Draw(h.t, "new unpack")
		saves = append(saves, s)
	}
	var reg = regs[rapid.IntRange(0, 1).Draw(h.t, "registry")]
	name = fmt.Sprintf("save %d/%d ×%d", i, n, len(saves))
	return name, func() {
		var up *skyobject.Unpack
		var err error
		var r = new(registry.Root)
		r.Pub, r.Nonce = keys[i].pk, n
		for _, s := range saves {
			if up == nil || s.anew {
				if up != nil {
					if err = up.Close(); err != nil {
						c.fail("close of Unpack: %v", err)
					}
				}
				if up, err = h.sc.Unpack(keys[i].sk, reg); err != nil {
					c.fail("unpack: %v", err)
					return
				}
			}
			for _, k := range s.objs {
				if err = up.Set(k, h.p.vals[k]); err != nil {
					c.fail("set: %v", err)
				}
			}
			r.Refs = s.refs
			if err = h.sc.Save(up, r); err != nil {
				c.fail("save: %v", err)
				return
			}
			c.add(r)
		}
		if err = up.Close(); err != nil {
			c.fail("close of Unpack: %v", err)
		}
	}
}

// filler fills roots of own head
func (c *conc) filler(h *hist, id int) (name string, run func()) {
	var rs []*registry.Root
	var i = rapid.IntRange(0, 2).Draw(h.t, "feed")
	for k := rapid.IntRange(1, 3).Draw(h.t, "fills"); k > 0; k-- {
		var r = h.drawRoot(i)
		r.Nonce = uint64(100 + id)
		r.Seq = uint64(k)
		r.Prev = hash{byte(k)}
		h.sign(i, r)
		rs = append(rs, r)
	}
	var par = rapid.IntRange(0, 3).Draw(h.t, "parallel")
	var cancel = rapid.IntRange(0, 3).Draw(h.t, "cancel")
	name = fmt.Sprintf("fill %d ×%d", i, len(rs))
	return name, func() {
		for _, r := range rs {
			var x, err = h.sc.ReceivedRoot(r.Pub, r.Sig, r.Encode())
			if err != nil {
				c.fail("received root: %v", err)
				return
			}
			for try := 0; ; try++ {
				var f = h.sc.Fill(x, c.src.rq, par)
				if try == 0 && cancel == 0 {
					go func() {
						runtime.Gosched()
						f.Close()
					}()
				}
				err = f.Run()
				f.Close()
				if err == nil {
					break
				}
				// objects can be removed at the same time
				if try > 200 {
					c.fail("filling: %v", err)
					return
				}
			}
			c.add(x)
		}
	}
}

func (c *conc) deleter(h *hist, rs []*rootInfo) (name string, run func()) {
	return fmt.Sprintf("delete ×%d", len(rs)), func() {
		for _, r := range rs {
			if err := h.sc.DelRoot(r.pk, r.nonce, r.seq); err != nil {
				c.fail("delete root: %v", err)
			}
		}
	}
}

func (c *conc) cleaner(h *hist) (name string, run func()) {
	var n = rapid.IntRange(1, 4).Draw(h.t, "times")
	return fmt.Sprintf("remove objects ×%d", n), func() {
		for i := 0; i < n; i++ {
			if err := cxoutils.RemoveObjects(h.sc); err != nil {
				c.fail("remove objects: %v", err)
			}
			runtime.Gosched()
		}
	}
}

// victim removes a feed
func (c *conc) victim(h *hist, how string) (name string, run func()) {
	var pk = keys[3].pk
	var ns = nonces(h.feeds[pk])
	return "victim " + how, func() {
		switch how {
		case "feed":
			if err := h.sc.DelFeed(pk); err != nil {
				c.fail("delete feed: %v", err)
			}
		case "heads":
			for _, n := range ns {
				if err := h.sc.DelHead(pk, n); err != nil {
					c.fail("delete head: %v", err)
				}
			}
		}
	}
}

// reader reads roots nobody deletes
func (c *conc) reader(h *hist, rs []*rootInfo) (name string, run func()) {
	var n = rapid.IntRange(1, 3).Draw(h.t, "times")
	var what = rapid.SampledFrom([]string{"walk", "lists", "stat", "receive", "tree"}).Draw(h.t, "read")
	var keep = rapid.IntRange(-1, 1).Draw(h.t, "keep")
	_ = keep
	return fmt.Sprintf("read %s ×%d", what, n), func() {
		for i := 0; i < n; i++ {
			for _, r := range rs {
				var x, err = h.sc.Root(r.pk, r.nonce, r.seq)
				if err != nil {
					c.fail("root: %v", err)
					return
				}
				if x.Hash != r.hash || !bytes.Equal(x.Encode(), r.val) {
					c.fail("another root")
				}
				switch what {
				case "walk":
					err = h.sc.Walk(x, func(k cipher.SHA256, _ int) (deeper bool, err error) {
						if k == (hash{}) {
							return
						}
						var val []byte
						var rc int
						if val, rc, err = h.sc.Get(k, 0); err != nil {
							return
						}
						if hashOf(val) != k {
							c.fail("wrong value of %s", short(k))
						}
						if rc <= 0 {
							c.fail("object %s of a stored root has counter %d", short(k), rc)
						}
						return true, nil
					})
					if err != nil {
						c.fail("walk: %v", err)
					}
				case "lists":
					var pks = h.sc.Feeds()
					for _, pk := range pks {
						h.sc.Heads(pk)
						h.sc.ActiveHead(pk)
					}
					if len(pks) < 3 {
						c.fail("feeds are lost")
					}
					var seq, err = h.sc.LastRootSeq(r.pk, r.nonce)
					if err != nil || seq < r.seq {
						c.fail("last root: %d, %v", seq, err)
					}
					if x, err = h.sc.LastRoot(r.pk, r.nonce); err != nil || x.Seq < seq {
						c.fail("last root: %v", err)
					}
					h.sc.LastRoot(keys[3].pk, 1)
					if x, err = h.sc.RootByHash(r.hash); err != nil {
						c.fail("root by hash: %v", err)
					}
				case "stat":
					var s = h.sc.Stat()
					if s == nil || len(s.Feeds) < 3 {
						c.fail("statistics: %v", s)
					}
				case "receive":
					if x, err = h.sc.ReceivedRoot(r.pk, r.sig, r.val); err != nil || !x.IsFull {
						c.fail("received root: %v", err)
					}
				case "tree":
					var p, err = h.sc.Pack(x, nil)
					if err != nil {
						c.fail("pack: %v", err)
						return
					}
					if _, err = x.Tree(p); err != nil {
						c.fail("tree: %v", err)
					}
				}
			}
			runtime.Gosched()
		}
	}
}

func (c *conc) feeder(h *hist) (name string, run func()) {
	var i = rapid.IntRange(0, 2).Draw(h.t, "feed")
	var n = uint64(rapid.IntRange(1, 2).Draw(h.t, "head"))
	return "add feed and head", func() {
		if err := h.sc.AddFeed(keys[i].pk); err != nil {
			c.fail("add feed: %v", err)
		}
		if err := h.sc.AddHead(keys[i].pk, n); err != nil {
			c.fail("add head: %v", err)
		}
	}
}

// objects without roots
func (c *conc) counters(h *hist) (name string, run func()) {
	var val = []byte(fmt.Sprint("shared object ", rapid.IntRange(0, 2).Draw(h.t, "shared")))
	var k = hashOf(val)
	var sets = rapid.IntRange(1, 10).Draw(h.t, "sets")
	var decs = rapid.IntRange(0, sets).Draw(h.t, "decs")
	c.extra[k] += sets - decs
	return fmt.Sprintf("counters +%d -%d", sets, decs), func() {
		for i := 0; i < sets; i++ {
			if _, err := h.sc.Set(k, val, 1); err != nil {
				c.fail("set: %v", err)
			}
			if i < decs {
				if _, err := h.sc.Inc(k, -1); err != nil {
					c.fail("inc: %v", err)
				}
			}
		}
	}
}

func TestS11(t *testing.T) {
	pbt.Check(t, "concurrent", 200, 2500, func(t *rapid.T, cs *pbt.Case) {
		var h = newHist(t, cs, chkRC|chkIndex)
		defer h.finish()
		for i := 0; i < 4; i++ {
			h.must(h.sc.AddFeed(keys[i].pk), "add feed")
			h.feeds[keys[i].pk] = map[uint64]*headInfo{}
		}
		for i := rapid.IntRange(1, 6).Draw(t, "ops before"); i > 0; i-- {
			h.op(rapid.SampledFrom([]string{"save", "save", "fill", "abandon"}).Draw(t, "op"))
		}
		for _, u := range h.open {
			h.must(u.up.Close(), "close Unpack")
		}
		h.open = nil
		var c = &conc{h: h, extra: map[hash]int{}}
		// roots to delete and to keep
		var stable, doomed []*rootInfo
		var rs = h.roots()
		sort.Slice(rs, func(a, b int) bool { return bytes.Compare(rs[a].hash[:], rs[b].hash[:]) < 0 })
		for _, r := range rs {
			switch {
			case r.pk == keys[3].pk:
			case h.feeds[r.pk][r.nonce].last() != r && rapid.Bool().Draw(t, "delete"):
				doomed = append(doomed, r)
			default:
				stable = append(stable, r)
			}
		}
		c.src = h.source(inPool(h.p))
		c.src.had = map[hash]bool{}
		var runs []func()
		var names []string
		var add = func(name string, run func()) {
			names, runs = append(names, name), append(runs, run)
		}
		add(c.saver(h))
		var how string
		for i := rapid.IntRange(1, 6).Draw(t, "goroutines"); i > 0; i-- {
			switch rapid.SampledFrom([]string{"save", "save", "fill", "fill", "clean", "read", "read", "feed", "counters", "victim"}).Draw(t, "goroutine") {
			case "save":
				add(c.saver(h))
			case "fill":
				add(c.filler(h, i))
			case "clean":
				add(c.cleaner(h))
			case "read":
				add(c.reader(h, stable))
			case "feed":
				add(c.feeder(h))
			case "counters":
				add(c.counters(h))
				add(c.counters(h))
			case "victim":
				if how == "" {
					how = rapid.SampledFrom([]string{"feed", "heads"}).Draw(t, "victim")
					add(c.victim(h, how))
				}
			}
		}
		if len(doomed) > 0 {
			if k := rapid.IntRange(0, len(doomed)).Draw(t, "split"); k > 0 {
				add(c.deleter(h, doomed[:k]))
				doomed = append(doomed[k:], doomed[:k]...)
				doomed = doomed[:len(doomed):len(doomed)]
				if k < len(doomed) {
					add(c.deleter(h, doomed[:len(doomed)-k]))
				}
			} else {
				add(c.deleter(h, doomed))
			}
		}
		h.note("at once: %v", names)
		var wg sync.WaitGroup
		c.src.start(2)
		pbt.Within(hangs, "concurrent use", func() {
			for _, run := range runs {
				wg.Add(1)
				go func(run func()) {
					defer wg.Done()
					run()
				}(run)
			}
			wg.Wait()
		})
		c.src.stop()
		c.bad = append(c.bad, c.src.bad...)
		if len(c.bad) > 0 {
			h.failf("%s", c.bad[0])
		}
		if len(runs) > 2 {
			cs.NonTrivial()
		}
		// the model
		for _, r := range doomed {
			delete(h.feeds[r.pk][r.nonce].roots, r.seq)
			h.drop(r)
		}
		switch how {
		case "feed":
			delete(h.feeds, keys[3].pk)
		case "heads":
			h.feeds[keys[3].pk] = map[uint64]*headInfo{}
		}
		for _, r := range c.saved {
			var hs = h.feeds[r.Pub]
			if hs[r.Nonce] == nil {
				hs[r.Nonce] = &headInfo{roots: map[uint64]*rootInfo{}}
			}
			if hs[r.Nonce].roots[r.Seq] != nil {
				h.failf("two roots with the same number")
			}
			hs[r.Nonce].roots[r.Seq] = infoOf(r)
		}
		for _, r := range c.saved {
			if r.Nonce > 100 || r.Seq == 0 {
				continue
			}
			var p = h.feeds[r.Pub][r.Nonce].roots[r.Seq-1]
			if p != nil && p.hash != r.Prev {
				h.failf("chain of roots is broken")
			}
		}
		for _, hs := range h.feeds {
			for n := range hs {
				if hs[n] == nil {
					t.Fatal("harness")
				}
			}
		}
		// heads the feeder adds
		for i := 0; i < 3; i++ {
			for n := uint64(1); n <= 2; n++ {
				if h.feeds[keys[i].pk][n] == nil && h.sc.HasHead(keys[i].pk, n) {
					if _, err := h.sc.LastRoot(keys[i].pk, n); err == nil {
						h.failf("unexpected root")
					}
					h.feeds[keys[i].pk][n] = &headInfo{roots: map[uint64]*rootInfo{}}
				}
			}
		}
		for k, n := range c.extra {
			var _, rc, err = h.sc.Get(k, 0)
			if err != nil && n > 0 || err == nil && rc != n {
				h.failf("counter of a shared object is %d (%v), want %d", rc, err, n)
			}
			if rc > 0 {
				_, err = h.sc.Inc(k, -rc)
				h.must(err, "inc")
			}
		}
		h.checkIndex()
		h.checkWalks()
		h.liveRC()
		h.reopen()
		h.check()
	})
}
