package tsky

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// faults decides which operation on a storage fails. A failed operation
// does nothing
type faults struct {
	mx     sync.Mutex
	armed  bool
	after  int  // operations to pass
	sticky bool // all next operations fail too
	fired  []string
	n      int
	lost   map[hash]bool // objects with failed changes of counters
}

var errDisk = errors.New("disk failure")

func (f *faults) hit(what string) error {
	f.mx.Lock()
	defer f.mx.Unlock()
	if !f.armed {
		return nil
	}
	f.n++
	if f.n-1 < f.after || f.n-1 > f.after && !f.sticky {
		return nil
	}
	f.fired = append(f.fired, what)
	return errDisk
}

func (f *faults) arm(after int, sticky bool) {
	f.mx.Lock()
	defer f.mx.Unlock()
	f.armed, f.after, f.sticky, f.n, f.fired = true, after, sticky, 0, nil
}

func (f *faults) disarm() (fired []string) {
	f.mx.Lock()
	defer f.mx.Unlock()
	f.armed = false
	defer func() { f.fired = nil }()
	return f.fired
}

func (f *faults) lose(key hash) {
	f.mx.Lock()
	defer f.mx.Unlock()
	if f.lost == nil {
		f.lost = map[hash]bool{}
	}
	f.lost[key] = true
}

type faultyCXDS struct {
	data.CXDS
	f *faults
}

func (c *faultyCXDS) Get(key cipher.SHA256, inc int) (val []byte, rc uint32, err error) {
	if err = c.f.hit("get"); err != nil {
		return
	}
	return c.CXDS.Get(key, inc)
}

func (c *faultyCXDS) Set(key cipher.SHA256, val []byte, inc int) (rc uint32, err error) {
	if err = c.f.hit("set"); err != nil {
		return
	}
	return c.CXDS.Set(key, val, inc)
}

func (c *faultyCXDS) Inc(key cipher.SHA256, inc int) (rc uint32, err error) {
	if err = c.f.hit("inc"); err != nil {
		c.f.lose(key)
		return
	}
	return c.CXDS.Inc(key, inc)
}

func (c *faultyCXDS) Iterate(fn data.IterateObjectsFunc) (err error) {
	if err = c.f.hit("iterate"); err != nil {
		return
	}
	return c.CXDS.Iterate(fn)
}

func (c *faultyCXDS) IterateDel(fn data.IterateObjectsDelFunc) (err error) {
	if err = c.f.hit("iterate and delete"); err != nil {
		return
	}
	return c.CXDS.IterateDel(fn)
}

func (c *faultyCXDS) Del(key cipher.SHA256) (err error) {
	if err = c.f.hit("delete"); err != nil {
		return
	}
	return c.CXDS.Del(key)
}

type faultyIdx struct {
	data.IdxDB
	f *faults
}

func (i *faultyIdx) Tx(fn func(data.Feeds) error) (err error) {
	if err = i.f.hit("begin"); err != nil {
		return
	}
	return i.IdxDB.Tx(func(fs data.Feeds) (err error) {
		if err = fn(&faultyFeeds{fs, i.f}); err == nil {
			err = i.f.hit("commit") // and roll back
		}
		return
	})
}

type faultyFeeds struct {
	data.Feeds
	f *faults
}

func (x *faultyFeeds) Add(pk cipher.PubKey) (err error) {
	if err = x.f.hit("add feed"); err != nil {
		return
	}
	return x.Feeds.Add(pk)
}

func (x *faultyFeeds) Del(pk cipher.PubKey) (err error) {
	if err = x.f.hit("del feed"); err != nil {
		return
	}
	return x.Feeds.Del(pk)
}

func (x *faultyFeeds) Iterate(fn data.IterateFeedsFunc) (err error) {
	if err = x.f.hit("iterate feeds"); err != nil {
		return
	}
	return x.Feeds.Iterate(fn)
}

func (x *faultyFeeds) Has(pk cipher.PubKey) (ok bool, err error) {
	if err = x.f.hit("has feed"); err != nil {
		return
	}
	return x.Feeds.Has(pk)
}

func (x *faultyFeeds) Heads(pk cipher.PubKey) (hs data.Heads, err error) {
	if err = x.f.hit("heads"); err != nil {
		return
	}
	if hs, err = x.Feeds.Heads(pk); err == nil {
		hs = &faultyHeads{hs, x.f}
	}
	return
}

type faultyHeads struct {
	data.Heads
	f *faults
}

func (x *faultyHeads) Roots(nonce uint64) (rs data.Roots, err error) {
	if err = x.f.hit("roots"); err != nil {
		return
	}
	if rs, err = x.Heads.Roots(nonce); err == nil {
		rs = &faultyRoots{rs, x.f}
	}
	return
}

func (x *faultyHeads) Add(nonce uint64) (rs data.Roots, err error) {
	if err = x.f.hit("add head"); err != nil {
		return
	}
	if rs, err = x.Heads.Add(nonce); err == nil {
		rs = &faultyRoots{rs, x.f}
	}
	return
}

func (x *faultyHeads) Del(nonce uint64) (err error) {
	if err = x.f.hit("del head"); err != nil {
		return
	}
	return x.Heads.Del(nonce)
}

func (x *faultyHeads) Has(nonce uint64) (ok bool, err error) {
	if err = x.f.hit("has head"); err != nil {
		return
	}
	return x.Heads.Has(nonce)
}

func (x *faultyHeads) Iterate(fn data.IterateHeadsFunc) (err error) {
	if err = x.f.hit("iterate heads"); err != nil {
		return
	}
	return x.Heads.Iterate(fn)
}

type faultyRoots struct {
	data.Roots
	f *faults
}

func (x *faultyRoots) Ascend(fn data.IterateRootsFunc) (err error) {
	if err = x.f.hit("ascend"); err != nil {
		return
	}
	return x.Roots.Ascend(fn)
}

func (x *faultyRoots) Descend(fn data.IterateRootsFunc) (err error) {
	if err = x.f.hit("descend"); err != nil {
		return
	}
	return x.Roots.Descend(fn)
}

func (x *faultyRoots) Set(r *data.Root) (err error) {
	if err = x.f.hit("set root"); err != nil {
		return
	}
	return x.Roots.Set(r)
}

func (x *faultyRoots) Del(seq uint64) (err error) {
	if err = x.f.hit("del root"); err != nil {
		return
	}
	return x.Roots.Del(seq)
}

func (x *faultyRoots) Get(seq uint64) (r *data.Root, err error) {
	if err = x.f.hit("get root"); err != nil {
		return
	}
	return x.Roots.Get(seq)
}

func (x *faultyRoots) Has(seq uint64) (ok bool, err error) {
	if err = x.f.hit("has root"); err != nil {
		return
	}
	return x.Roots.Has(seq)
}

// place of a root
type place struct {
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
}

func (p place) String() string { return fmt.Sprintf("%s/%d/%d", p.pk.Hex()[:4], p.nonce, p.seq) }

// snapshot of an index: feeds, heads and roots
type snapshot struct {
	feeds map[cipher.PubKey]bool
	heads map[place]bool
	roots map[place]hash
}

func (s *snapshot) clone() (d *snapshot) {
	d = &snapshot{map[cipher.PubKey]bool{}, map[place]bool{}, map[place]hash{}}
	for k := range s.feeds {
		d.feeds[k] = true
	}
	for k := range s.heads {
		d.heads[k] = true
	}
	for k, v := range s.roots {
		d.roots[k] = v
	}
	return
}

// remove everything of a feed, of a head, or one root
func (s *snapshot) remove(pk cipher.PubKey, nonce *uint64) {
	for k := range s.heads {
		if k.pk == pk && (nonce == nil || k.nonce == *nonce) {
			delete(s.heads, k)
		}
	}
	for k := range s.roots {
		if k.pk == pk && (nonce == nil || k.nonce == *nonce) {
			delete(s.roots, k)
		}
	}
	if nonce == nil {
		delete(s.feeds, pk)
	}
}

func (s *snapshot) equal(d *snapshot) bool {
	return fmt.Sprint(s.feeds) == fmt.Sprint(d.feeds) && fmt.Sprint(s.heads) == fmt.Sprint(d.heads) && fmt.Sprint(s.roots) == fmt.Sprint(d.roots)
}

func (s *snapshot) String() string {
	return fmt.Sprintf("%d feeds, heads %v, roots %v", len(s.feeds), s.heads, len(s.roots))
}

// faulty is a history with failures of the storage
type faulty struct {
	*hist
	f   *faults
	raw *testDB

	before, after *snapshot // expected result of the operation
	any           bool      // any subset of changes is possible
	info          map[hash]*rootInfo
	broken        bool // the storage was unable to roll back
	failed        bool // an operation reported a failure
	fails         int
}

func (x *faulty) look() (s *snapshot) {
	s = &snapshot{map[cipher.PubKey]bool{}, map[place]bool{}, map[place]hash{}}
	x.must(x.raw.idx.Tx(func(fs data.Feeds) error {
		return fs.Iterate(func(pk cipher.PubKey) error {
			s.feeds[pk] = true
			var hs, err = fs.Heads(pk)
			if err != nil {
				return err
			}
			return hs.Iterate(func(n uint64) error {
				s.heads[place{pk, n, 0}] = true
				var rs, err = hs.Roots(n)
				if err != nil {
					return err
				}
				return rs.Ascend(func(r *data.Root) error {
					s.roots[place{pk, n, r.Seq}] = r.Hash
					if x.info[r.Hash] == nil {
						var val, _, err = x.raw.cx.Get(r.Hash, 0)
						if err != nil {
							x.failf("value of indexed root %d: %v", r.Seq, err)
						}
						var root, derr = registry.DecodeRoot(val)
						x.must(derr, "decode indexed root")
						root.Hash, root.Sig = r.Hash, r.Sig
						x.info[r.Hash] = infoOf(root)
					}
					return nil
				})
			})
		})
	}), "look at the index")
	return
}

// sync the model with the index
func (x *faulty) sync(s *snapshot) {
	x.feeds = map[cipher.PubKey]map[uint64]*headInfo{}
	for pk := range s.feeds {
		x.feeds[pk] = map[uint64]*headInfo{}
	}
	for k := range s.heads {
		x.feeds[k.pk][k.nonce] = &headInfo{roots: map[uint64]*rootInfo{}}
	}
	for k, v := range s.roots {
		x.feeds[k.pk][k.nonce].roots[k.seq] = x.info[v]
	}
}

// within is what an operation that failed can leave
func (x *faulty) within(s *snapshot) (ok bool) {
	if s.equal(x.before) || s.equal(x.after) {
		return true
	}
	if !x.any {
		return
	}
	if fmt.Sprint(s.feeds) != fmt.Sprint(x.before.feeds) || fmt.Sprint(s.heads) != fmt.Sprint(x.before.heads) {
		return
	}
	for k, v := range x.before.roots {
		var _, must = x.after.roots[k]
		if y, has := s.roots[k]; has && y != v || must && !has {
			return false
		}
	}
	return len(s.roots) <= len(x.before.roots)
}

// run an operation, that should set the after field, with a failure
func (x *faulty) run(name string, fn func() (err error)) {
	x.before = x.look()
	x.after, x.any = x.before.clone(), false
	var inject = rapid.IntRange(0, 2).Draw(x.t, "fault") > 0
	if inject {
		var after = rapid.IntRange(0, rapid.SampledFrom([]int{3, 10, 40}).Draw(x.t, "many")).Draw(x.t, "after")
		x.f.arm(after, rapid.IntRange(0, 7).Draw(x.t, "sticky") == 0)
	}
	var err = func() (err error) {
		defer func() {
			// the failure is reported this way
			if p := recover(); p != nil {
				var s = fmt.Sprint(p)
				if !strings.HasPrefix(s, "DB failure") {
					x.f.disarm()
					panic(p)
				}
				err = errors.New(s)
			}
		}()
		return fn()
	}()
	var fired = x.f.disarm()
	var now = x.look()
	if len(fired) == 0 {
		if err != nil {
			x.failf("%s: %v", name, err)
		}
		if !now.equal(x.after) {
			x.failf("%s: index has %s, want %s", name, now, x.after)
		}
	} else {
		x.fails++
		x.note("%s fails %d times by %q: %v", name, len(fired), fired[0], err)
		x.c.Class(name + " fails by " + fired[0])
		if err == nil {
			// can only be if the operation is done in spite of the failure
			if !now.equal(x.after) {
				x.failf("%s says nothing about the failure by %q: index has %s, want %s", name, fired[0], now, x.after)
			}
			x.c.Class("done in spite of the failure")
		} else {
			x.failed = true
		}
		if !x.within(now) {
			x.failf("failed %s leaves %s, was %s", name, now, x.before)
		}
		x.broken = x.broken || len(fired) > 1
	}
	x.sync(now)
	if x.sc != nil {
		x.checkIndex()
		x.checkWalks()
	}
}

func (x *faulty) saveRoot() {
	var i, _ = x.drawFeed()
	for x.feeds[keys[i].pk] == nil {
		if len(x.feeds) == 0 {
			return
		}
		i, _ = x.drawFeed()
	}
	var n = x.drawNonce(i, false)
	var r = new(registry.Root)
	if last, err := x.sc.LastRoot(keys[i].pk, n); err == nil && rapid.Bool().Draw(x.t, "last") {
		if last.Reg == regs[0].Reference() {
			r = last
		}
	}
	r.Pub, r.Nonce = keys[i].pk, n
	var ks []hash
	for j := rapid.IntRange(0, 3).Draw(x.t, "objects"); j > 0; j-- {
		var k = x.p.some(x.t, uint8(rapid.IntRange(tLeaf, tDeep).Draw(x.t, "type")), 3)
		r.Refs = append(r.Refs, x.p.dynamicOf(k))
		ks = append(ks, k)
	}
	x.note("save %d/%d", i, n)
	var up, err = x.sc.Unpack(keys[i].sk, regs[0])
	x.must(err, "Unpack")
	x.run("saving", func() (err error) {
		defer func() {
			if cerr := up.Close(); err == nil {
				err = cerr
			}
		}()
		for _, k := range ks {
			for _, y := range x.p.closure(k) {
				if err = up.Set(y, x.p.vals[y]); err != nil {
					return
				}
			}
		}
		var next uint64
		for k := range x.before.roots {
			if k.pk == r.Pub && k.nonce == n && k.seq+1 > next {
				next = k.seq + 1
			}
		}
		err = x.sc.Save(up, r)
		if now := x.look(); now.roots[place{r.Pub, n, next}] != (hash{}) {
			x.after.heads[place{r.Pub, n, 0}] = true
			x.after.roots[place{r.Pub, n, next}] = now.roots[place{r.Pub, n, next}]
		} else if err == nil {
			x.failf("saved root is not in the index")
		}
		return
	})
}

func (x *faulty) fillRoot() {
	var ks = x.pks()
	if len(ks) == 0 {
		return
	}
	var i = rapid.SampledFrom(ks).Draw(x.t, "feed")
	var r = x.drawRoot(i)
	var pl = place{r.Pub, r.Nonce, r.Seq}
	if _, ok := x.look().roots[pl]; ok {
		return
	}
	x.note("fill %d/%d/%d", i, r.Nonce, r.Seq)
	var par = rapid.IntRange(0, 3).Draw(x.t, "parallel")
	x.run("filling", func() (err error) {
		x.after.heads[place{r.Pub, r.Nonce, 0}] = true
		x.after.roots[pl] = r.Hash
		var y *registry.Root
		if y, err = x.sc.ReceivedRoot(r.Pub, r.Sig, r.Encode()); err != nil {
			return
		}
		var rq = make(chan cipher.SHA256)
		var f = x.sc.Fill(y, rq, par)
		var quit = make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case k := <-rq:
					if _, err := x.sc.SetWanted(k, x.p.vals[k]); err != nil {
						f.Fail(err)
					}
				case <-quit:
					return
				}
			}
		}()
		defer wg.Wait()
		defer close(quit)
		defer f.Close()
		return f.Run()
	})
}

func (x *faulty) delete() {
	var pk = keys[rapid.IntRange(0, len(keys)-1).Draw(x.t, "feed")].pk
	if ks := x.pks(); len(ks) > 0 {
		pk = keys[rapid.SampledFrom(ks).Draw(x.t, "feed")].pk
	}
	if x.feeds[pk] == nil {
		return
	}
	var what = rapid.SampledFrom([]string{"root", "root", "head", "feed", "old roots"}).Draw(x.t, "delete")
	var ns = nonces(x.feeds[pk])
	if len(ns) == 0 && what != "old roots" {
		what = "feed"
	}
	x.note("delete %s", what)
	switch what {
	case "feed":
		x.run("deleting of a feed", func() error {
			x.after.remove(pk, nil)
			return x.sc.DelFeed(pk)
		})
	case "head":
		var n = rapid.SampledFrom(ns).Draw(x.t, "head")
		x.run("deleting of a head", func() error {
			x.after.remove(pk, &n)
			return x.sc.DelHead(pk, n)
		})
	case "root":
		var n = rapid.SampledFrom(ns).Draw(x.t, "head")
		var rs = x.feeds[pk][n].sorted()
		if len(rs) == 0 {
			return
		}
		var seq = rapid.SampledFrom(rs).Draw(x.t, "root").seq
		x.run("deleting of a root", func() error {
			delete(x.after.roots, place{pk, n, seq})
			return x.sc.DelRoot(pk, n, seq)
		})
	default:
		var keep = rapid.IntRange(0, 2).Draw(x.t, "keep")
		x.run("deleting of old roots", func() error {
			x.any = true
			for pk, hs := range x.feeds {
				for n, hd := range hs {
					for rs := hd.sorted(); len(rs) > keep; rs = rs[1:] {
						delete(x.after.roots, place{pk, n, rs[0].seq})
					}
				}
			}
			return cxoutils.RemoveRootObjects(x.sc, keep)
		})
	}
}

func (x *faulty) read() {
	var rs = x.roots()
	if len(rs) == 0 {
		return
	}
	var r = rapid.SampledFrom(sortRoots(rs)).Draw(x.t, "root")
	x.run("reading", func() (err error) {
		var y *registry.Root
		if y, err = x.sc.Root(r.pk, r.nonce, r.seq); err != nil {
			return
		}
		if _, err = x.sc.RootByHash(r.hash); err != nil {
			return
		}
		if _, err = x.sc.LastRoot(r.pk, r.nonce); err != nil {
			return
		}
		var seen = map[hash]bool{}
		return x.sc.Walk(y, func(k cipher.SHA256, _ int) (deeper bool, err error) {
			deeper = k != (hash{}) && !seen[k]
			seen[k] = true
			return
		})
	})
}

func (x *faulty) reopenFails() {
	x.note("reopen")
	x.must(x.sc.Close(), "close")
	x.sc = nil
	var conf = x.conf
	conf.DB = x.db.db()
	x.run("opening", func() (err error) {
		var sc *skyobject.Container
		if sc, err = skyobject.NewContainer(conf); err == nil {
			x.sc = sc
		}
		return
	})
	if x.sc == nil {
		x.start()
	}
}

func sortRoots(rs []*rootInfo) []*rootInfo {
	var m = vals{}
	var by = map[hash]*rootInfo{}
	for _, r := range rs {
		m[r.hash], by[r.hash] = nil, r
	}
	rs = rs[:0:0]
	for _, k := range sortedKeys(m) {
		rs = append(rs, by[k])
	}
	return rs
}

func (x *faulty) op(name string) {
	switch name {
	case "feed":
		var pk = keys[rapid.IntRange(0, len(keys)-1).Draw(x.t, "feed")].pk
		x.run("adding of a feed", func() error {
			x.after.feeds[pk] = true
			return x.sc.AddFeed(pk)
		})
	case "head":
		var ks = x.pks()
		if len(ks) == 0 {
			return
		}
		var i = rapid.SampledFrom(ks).Draw(x.t, "feed")
		var n = x.drawNonce(i, false)
		x.run("adding of a head", func() error {
			x.after.heads[place{keys[i].pk, n, 0}] = true
			return x.sc.AddHead(keys[i].pk, n)
		})
	case "save":
		x.saveRoot()
	case "fill":
		x.fillRoot()
	case "delete":
		x.delete()
	case "garbage":
		x.run("deleting of objects", func() error { return cxoutils.RemoveObjects(x.sc) })
	case "read":
		x.read()
	case "reopen":
		x.reopenFails()
	}
}

// TestS12 is about failures of the storage
func TestS12(t *testing.T) {
	pbt.Check(t, "failures", 900, 9000, func(t *rapid.T, c *pbt.Case) {
		var raw = memDB()
		defer raw.close()
		var f = new(faults)
		var x = &faulty{f: f, raw: raw, info: map[hash]*rootInfo{}}
		x.hist = &hist{t: t, c: c, p: newPool(), feeds: map[cipher.PubKey]map[uint64]*headInfo{}, present: map[hash]bool{}}
		x.db = &testDB{cx: &faultyCXDS{raw.cx, f}, idx: &faultyIdx{raw.idx, f}}
		x.start()
		defer func() {
			if x.sc != nil {
				x.sc.Close()
			}
		}()
		for i := rapid.IntRange(1, 2).Draw(t, "feeds"); i > 0; i-- {
			x.addFeed()
		}
		for i := rapid.IntRange(1, 12).Draw(t, "ops"); i > 0 && !x.broken; i-- {
			var name = rapid.SampledFrom([]string{"save", "save", "save", "save", "fill", "fill", "delete", "delete", "garbage", "read", "feed", "head", "reopen"}).Draw(t, "op")
			pbt.Within(hangs, "operation "+name, func() { x.op(name) })
		}
		// everything is kept
		pbt.Within(hangs, "closing", func() {
			f.lost = nil
			if rapid.IntRange(0, 2).Draw(t, "closing fails") == 0 {
				f.arm(rapid.IntRange(0, 5).Draw(t, "after"), rapid.Bool().Draw(t, "sticky"))
			}
			var err = x.sc.Close()
			if fired := f.disarm(); len(fired) == 0 {
				x.must(err, "close")
			} else if x.fails++; err == nil {
				x.failf("closing says nothing about the failure by %q", fired[0])
			} else {
				x.c.Class("closing fails")
			}
			x.sc = nil
			var m = content(t, raw.cx)
			var vs = vals{}
			for k, v := range m {
				vs[k] = []byte(v.val)
			}
			var ct = newCounter(getIn(vs))
			for _, r := range x.roots() {
				ct.root(r)
			}
			if len(ct.miss) > 0 {
				x.failf("object %s of a root is missing", x.name(ct.miss[0]))
			}
			for _, k := range sortedKeys(vs) {
				if f.lost[k] {
					continue // by the closing
				}
				if int(m[k].rc) < ct.count[k] || !x.failed && int(m[k].rc) != ct.count[k] {
					x.failf("counter of %s is %d, but it is used %d times", x.name(k), m[k].rc, ct.count[k])
				}
			}
			x.start()
			x.checkIndex()
			x.checkWalks()
			for _, i := range x.pks() {
				x.must(x.sc.DelFeed(keys[i].pk), "delete a feed")
			}
		})
		if x.fails > 0 {
			c.NonTrivial()
		}
	})
}
