package tsky

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// an operation takes milliseconds
const hangs = 100 * time.Second

// oracles
const (
	chkSave  = 1 << iota // S01
	chkRC                // S02
	chkClean             // S03
	chkIndex             // S05
	chkStat              // S10
)

// a head of the model
type headInfo struct {
	roots map[uint64]*rootInfo // seq -> root
}

func (h *headInfo) last() (r *rootInfo) {
	for _, x := range h.roots {
		if r == nil || x.seq > r.seq {
			r = x
		}
	}
	return
}

func (h *headInfo) sorted() (rs []*rootInfo) {
	for _, x := range h.roots {
		rs = append(rs, x)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].seq < rs[j].seq })
	return
}

type unpackInfo struct {
	up  *skyobject.Unpack
	key keyPair
	reg int
	set map[hash]int
}

// spy implements registry.Pack on top of an Unpack, keeping what is set
type spy struct {
	*skyobject.Unpack
	h *hist
	u *unpackInfo
}

func (s *spy) Set(key cipher.SHA256, val []byte) (err error) {
	if err = s.Unpack.Set(key, val); err == nil {
		s.h.p.vals[key] = append([]byte(nil), val...)
		s.u.set[key]++
	}
	return
}

func (s *spy) Add(val []byte) (key cipher.SHA256, err error) {
	if key, err = s.Unpack.Add(val); err == nil {
		if key != cipher.SumSHA256(val) {
			s.h.failf("Add returns wrong hash")
		}
		s.h.p.vals[key] = append([]byte(nil), val...)
		s.u.set[key]++
	}
	return
}

// history of a container
type hist struct {
	t   *rapid.T
	c   *pbt.Case
	chk int

	db    *testDB // in memory
	dir   string  // or on drive
	conf  *skyobject.Config
	sc    *skyobject.Container
	p     *pool
	feeds map[cipher.PubKey]map[uint64]*headInfo

	deleted []*rootInfo // deleted roots
	open    []*unpackInfo
	kept    []*registry.Root
	present map[hash]bool // keys of CXDS
	unsure  bool          // present is unknown (a filling is failed)

	saves, dels, shared int
}

func (h *hist) note(format string, args ...interface{}) { h.c.Note(format, args...) }

func (h *hist) failf(format string, args ...interface{}) {
	h.t.Helper()
	h.t.Fatalf("%s\nafter: %s", fmt.Sprintf(format, args...), h.c)
}

func (h *hist) must(err error, what string) {
	h.t.Helper()
	if err != nil {
		h.failf("%s: %v", what, err)
	}
}

func (h *hist) config() (conf *skyobject.Config) {
	conf = skyobject.NewConfig()
	conf.DataDir = ""
	conf.Degree = rapid.SampledFrom([]registry.Degree{2, 3, 16}).Draw(h.t, "degree")
	conf.CheckSizes = rapid.Bool().Draw(h.t, "check sizes")
	h.note("cache %s degree %d", drawCache(h.t, conf), conf.Degree)
	return
}

func (h *hist) start() {
	h.conf = h.config()
	if h.dir != "" {
		h.conf.DBPath = filepath.Join(h.dir, "x")
	} else {
		h.conf.DB = h.db.db()
	}
	var err error
	if h.sc, err = skyobject.NewContainer(h.conf); err != nil {
		h.failf("can't open the container: %v", err)
	}
}

func newHist(t *rapid.T, c *pbt.Case, chk int) (h *hist) {
	h = &hist{t: t, c: c, chk: chk, p: newPool(), feeds: map[cipher.PubKey]map[uint64]*headInfo{}, present: map[hash]bool{}}
	if rapid.IntRange(0, 9).Draw(t, "on drive") == 0 {
		h.dir = pbt.Scratch()
		c.Class("on drive")
	} else {
		h.db = memDB()
	}
	h.start()
	return
}

func (h *hist) finish() {
	if h.sc != nil {
		h.sc.Close()
	}
	if h.db != nil {
		h.db.close()
	}
	if h.dir != "" {
		os.RemoveAll(h.dir)
	}
}

func (h *hist) cxds() data.CXDS { return h.sc.DB().CXDS() }

// content of CXDS
func (h *hist) content() (m map[hash]rcval, vs vals) {
	m = content(h.t, h.cxds())
	vs = vals{}
	for k, v := range m {
		vs[k] = []byte(v.val)
		if hashOf(vs[k]) != k {
			h.failf("value of %s has another hash", short(k))
		}
	}
	return
}

func (h *hist) roots() (rs []*rootInfo) {
	for _, hs := range h.feeds {
		for _, hd := range hs {
			rs = append(rs, hd.sorted()...)
		}
	}
	return
}

// sorted feeds and heads
func (h *hist) pks() (ks []int) {
	for i, k := range keys {
		if _, ok := h.feeds[k.pk]; ok {
			ks = append(ks, i)
		}
	}
	return
}

func nonces(hs map[uint64]*headInfo) (ns []uint64) {
	for n := range hs {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	return
}

// counters by the model
func (h *hist) counts(vs vals) (c *counter) {
	c = newCounter(getIn(vs))
	for _, r := range h.roots() {
		c.root(r)
	}
	return
}

func (h *hist) held(k hash) (n int) {
	for _, u := range h.open {
		n += u.set[k]
	}
	return
}

// complete checks that everything stored roots need is in the store, and
// returns counters
func (h *hist) complete(vs vals) (c *counter) {
	c = h.counts(vs)
	if len(c.miss) > 0 {
		h.failf("object %s of a stored root is missing", short(c.miss[0]))
	}
	for _, r := range h.roots() {
		if !bytes.Equal(vs[r.hash], r.val) {
			h.failf("value of stored root %d is missing or wrong", r.seq)
		}
		for i, reg := range regs {
			if reg.Reference() == r.reg && !bytes.Equal(vs[regKeys[i]], reg.Encode()) {
				h.failf("registry of stored root is missing or wrong")
			}
		}
	}
	return
}

// liveRC checks counters of working container
func (h *hist) liveRC() {
	var _, vs = h.content()
	var c = h.complete(vs)
	for _, k := range sortedKeys(vs) {
		var val, rc, err = h.sc.Get(k, 0)
		h.must(err, "get of existing object")
		if !bytes.Equal(val, vs[k]) {
			h.failf("wrong value of %s", short(k))
		}
		if n := h.held(k); n == 0 && rc != c.count[k] || rc < c.count[k] || rc > c.count[k]+n {
			h.failf("references counter of %s is %d, used %d times by stored roots (held %d times)", h.name(k), rc, c.count[k], n)
		}
	}
}

func sortedKeys(vs vals) (ks []hash) {
	for k := range vs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i][:], ks[j][:]) < 0 })
	return
}

func (h *hist) name(k hash) string {
	var kind = "node"
	if k == regKeys[0] || k == regKeys[1] {
		kind = "registry"
	}
	if v, ok := h.p.vals[k]; ok {
		if n, ok := typeNames[v[0]]; ok {
			kind = n
		}
	}
	for _, r := range append(h.roots(), h.deleted...) {
		if r.hash == k {
			kind = fmt.Sprintf("root %d/%d", r.nonce, r.seq)
		}
	}
	return kind + " " + short(k)
}

// storedRC checks counters of closed container
func (h *hist) storedRC(m map[hash]rcval, vs vals) {
	var c = h.complete(vs)
	for _, k := range sortedKeys(vs) {
		if int(m[k].rc) != c.count[k] {
			h.failf("references counter of %s in the closed store is %d, used %d times by stored roots", h.name(k), m[k].rc, c.count[k])
		}
	}
}

// keysKept checks that no object disappeared
func (h *hist) keysKept() {
	var _, vs = h.content()
	for k := range h.present {
		if _, ok := vs[k]; !ok {
			h.failf("object %s disappeared", h.name(k))
		}
	}
	for k := range vs {
		h.present[k] = true
	}
}

func (h *hist) checkWalks() {
	var vs vals
	for _, r := range h.roots() {
		var x, err = h.sc.Root(r.pk, r.nonce, r.seq)
		h.must(err, "get stored root")
		h.sameRoot(x, r, "stored")
		if vs == nil {
			_, vs = h.content()
		}
		h.walkRoot(x, vs)
	}
}

// walkRoot checks that everything of the root can be reached
func (h *hist) walkRoot(x *registry.Root, vs vals) {
	var c = newCounter(getIn(vs))
	c.root(&rootInfo{hash: x.Hash, reg: x.Reg, refs: x.Refs})
	if len(c.miss) > 0 {
		h.failf("object %s of root %d is missing", h.name(c.miss[0]), x.Seq)
	}
	var seen = map[hash]bool{}
	var visits []string
	var err = h.sc.Walk(x, func(k cipher.SHA256, depth int) (deeper bool, err error) {
		visits = append(visits, fmt.Sprint(short(k), " ", depth))
		if k == (hash{}) {
			return
		}
		if _, _, err = h.sc.Get(k, 0); err != nil {
			return
		}
		deeper = !seen[k]
		seen[k] = true
		return
	})
	h.must(err, "walk through a stored root")
	if len(seen) != len(c.count) {
		h.failf("walk through a stored root visits %d objects, but it has %d", len(seen), len(c.count))
	}
	h.walkAgain(x, visits)
}

// walkAgain checks that a walk starts from the root and its registry,
// then does what Walk of the root does, and that it can be broken
func (h *hist) walkAgain(x *registry.Root, visits []string) {
	var want = []string{fmt.Sprint(short(x.Hash), " ", 0), fmt.Sprint(short(hash(x.Reg)), " ", 0)}
	var seen = map[hash]bool{x.Hash: true, hash(x.Reg): true}
	var pack, err = h.sc.Pack(x, nil)
	h.must(err, "get pack of a stored root")
	err = x.Walk(pack, func(k cipher.SHA256, depth int) (deeper bool, err error) {
		want = append(want, fmt.Sprint(short(k), " ", depth))
		deeper = k != (hash{}) && !seen[k]
		seen[k] = true
		return
	})
	h.must(err, "walk through a decoded root")
	if fmt.Sprint(want) != fmt.Sprint(visits) {
		h.failf("Walk of the container visits\n%s, but it should be the root, the registry and what the root visits:\n%s", visits, want)
	}
	var fail = errors.New("test error")
	for _, how := range []error{registry.ErrStopIteration, fail} {
		var at, n = int(x.Hash[0]) % len(visits), 0
		seen = map[hash]bool{}
		err = h.sc.Walk(x, func(k cipher.SHA256, _ int) (deeper bool, err error) {
			deeper = k != (hash{}) && !seen[k]
			seen[k] = true
			if n++; n > at {
				err = how
			}
			return
		})
		switch {
		case n != at+1:
			h.failf("a walk broken at visit %d makes %d visits", at, n)
		case how == fail && err != fail:
			h.failf("a walk failed by the walking function returns %v", err)
		case how != fail && err != nil:
			h.failf("a walk stopped by the walking function returns %v", err)
		}
	}
}

func (h *hist) sameRoot(x *registry.Root, r *rootInfo, what string) {
	switch {
	case x.Hash != r.hash:
		h.failf("%s root %d has wrong hash", what, r.seq)
	case !bytes.Equal(x.Encode(), r.val):
		h.failf("%s root %d has wrong content", what, r.seq)
	case x.Sig != r.sig:
		h.failf("%s root %d has wrong signature", what, r.seq)
	case !x.IsFull:
		h.failf("%s root %d is not full", what, r.seq)
	}
}

// checkIndex compares all lookups with the model
func (h *hist) checkIndex() {
	var got = h.sc.Feeds()
	var seen = map[cipher.PubKey]bool{}
	for _, pk := range got {
		if _, ok := h.feeds[pk]; !ok || seen[pk] {
			h.failf("list of feeds has unexpected or repeated feed")
		}
		seen[pk] = true
	}
	if len(seen) != len(h.feeds) {
		h.failf("list of feeds has %d feeds, want %d", len(seen), len(h.feeds))
	}
	for _, k := range keys {
		var hs, ok = h.feeds[k.pk]
		if h.sc.HasFeed(k.pk) != ok {
			h.failf("HasFeed is %v", !ok)
		}
		var hl, err = h.sc.Heads(k.pk)
		if !ok {
			if err != data.ErrNoSuchFeed {
				h.failf("list of heads of unknown feed: %v, %v", hl, err)
			}
			if n := h.sc.ActiveHead(k.pk); n != 0 {
				h.failf("active head of unknown feed is %d", n)
			}
			for _, n := range []uint64{0, 1, 2} {
				if h.sc.HasHead(k.pk, n) {
					h.failf("unknown feed has a head")
				}
				if _, err = h.sc.LastRoot(k.pk, n); err != data.ErrNoSuchFeed {
					h.failf("last root of unknown feed: %v", err)
				}
				if _, err = h.sc.LastRootSeq(k.pk, n); err != data.ErrNoSuchFeed {
					h.failf("seq of last root of unknown feed: %v", err)
				}
				if _, err = h.sc.Root(k.pk, n, 0); err != data.ErrNoSuchFeed {
					h.failf("root of unknown feed: %v", err)
				}
			}
			continue
		}
		h.must(err, "list of heads")
		sort.Slice(hl, func(i, j int) bool { return hl[i] < hl[j] })
		if fmt.Sprint(hl) != fmt.Sprint(nonces(hs)) {
			h.failf("list of heads is %v, want %v", hl, nonces(hs))
		}
		var newest int64
		for _, hd := range hs {
			if l := hd.last(); l != nil && l.time > newest {
				newest = l.time
			}
		}
		var act = h.sc.ActiveHead(k.pk)
		if newest == 0 && act != 0 {
			h.failf("active head is %d, but there are no roots", act)
		} else if newest != 0 {
			var hd = hs[act]
			if hd == nil || hd.last() == nil || hd.last().time != newest {
				h.failf("active head is %d, but the newest root is in another head", act)
			}
		}
		for n := uint64(0); n < 5; n++ {
			h.checkHead(k.pk, n, hs[n])
		}
	}
	for _, r := range h.deleted {
		if x, err := h.sc.RootByHash(r.hash); err == nil && !h.has(r) {
			h.failf("deleted root %d/%d is found by hash: %s", r.nonce, r.seq, x)
		}
	}
	if x, err := h.sc.RootByHash(hash{1, 2, 3}); err == nil {
		h.failf("never stored root is found by hash: %s", x)
	}
}

func (h *hist) has(r *rootInfo) bool {
	var hd = h.feeds[r.pk][r.nonce]
	return hd != nil && hd.roots[r.seq] != nil && hd.roots[r.seq].hash == r.hash
}

func (h *hist) checkHead(pk cipher.PubKey, n uint64, hd *headInfo) {
	if h.sc.HasHead(pk, n) != (hd != nil) {
		h.failf("HasHead of %d is %v", n, hd == nil)
	}
	var wantErr error
	var last *rootInfo
	if hd == nil {
		wantErr = data.ErrNoSuchHead
	} else if last = hd.last(); last == nil {
		wantErr = data.ErrNotFound
	}
	var x, err = h.sc.LastRoot(pk, n)
	var seq, serr = h.sc.LastRootSeq(pk, n)
	if last == nil {
		if err != wantErr || serr != wantErr {
			h.failf("last root of head %d: %v, %v, want %v", n, err, serr, wantErr)
		}
		if x != nil {
			h.failf("last root of head %d is returned together with an error", n)
		}
		if x, err = h.sc.Root(pk, n, 0); err != wantErr {
			h.failf("root of head %d without roots: %v, want %v", n, err, wantErr)
		}
		return
	}
	h.must(err, "last root")
	h.must(serr, "seq of last root")
	if seq != last.seq {
		h.failf("seq of last root is %d, want %d", seq, last.seq)
	}
	h.sameRoot(x, last, "last")
	for _, r := range hd.sorted() {
		x, err = h.sc.Root(pk, n, r.seq)
		h.must(err, "root by seq")
		h.sameRoot(x, r, "got by seq")
		x, err = h.sc.RootByHash(r.hash)
		h.must(err, "root by hash")
		h.sameRoot(x, r, "got by hash")
	}
	for _, s := range []uint64{0, 1, last.seq + 1, last.seq - 1, last.seq / 2} {
		if hd.roots[s] != nil {
			continue
		}
		if x, err = h.sc.Root(pk, n, s); err != data.ErrNotFound {
			h.failf("missing root %d: %v, %v", s, x, err)
		}
	}
}

// checkStat compares statistics with content
func (h *hist) checkStat() {
	var s = h.sc.Stat()
	if s == nil {
		h.failf("no statistics")
	}
	var m, vs = h.content()
	var all, used, allv, usedv int
	for _, v := range m {
		all++
		allv += len(v.val)
		if v.rc > 0 {
			used++
			usedv += len(v.val)
		}
	}
	if int(s.AllObjects.Amount) != all || int(s.AllObjects.Volume) != allv {
		h.failf("statistics of all objects: %d, %d, want %d, %d", int(s.AllObjects.Amount), int(s.AllObjects.Volume), all, allv)
	}
	if int(s.UsedObjects.Amount) != used || int(s.UsedObjects.Volume) != usedv {
		h.failf("statistics of used objects: %d, %d, want %d, %d", int(s.UsedObjects.Amount), int(s.UsedObjects.Volume), used, usedv)
	}
	if len(h.open) == 0 {
		var c = h.counts(vs)
		var n, v int
		for k := range c.count {
			n++
			v += len(vs[k])
		}
		if used != n || usedv != v {
			h.failf("%d objects (%d bytes) are used by statistics, but %d (%d bytes) are used by roots", used, usedv, n, v)
		}
	}
	// cached objects: deleting of an object that is cached removes it from
	// the cache, getting of all objects one by one says nothing; the limits
	// and emptiness are what can be known
	var ca, cv = int(s.CacheObjects.Amount), int(s.CacheObjects.Volume)
	if ca < 0 || cv < 0 || ca > h.conf.CacheMaxAmount || cv > h.conf.CacheMaxVolume || ca > all || cv > allv || (ca == 0) != (cv == 0) {
		h.failf("statistics of cached objects: %d, %d", ca, cv)
	}
	var n int
	for k := range vs {
		if h.sc.IsCached(k) {
			n++
		}
	}
	if n < ca || len(h.open) == 0 && n != ca {
		h.failf("%d objects are cached by statistics, but %d are cached", ca, n)
	}
	if len(s.Feeds) != len(h.feeds) {
		h.failf("statistics has %d feeds, want %d", len(s.Feeds), len(h.feeds))
	}
	for pk, hs := range h.feeds {
		var fs, ok = s.Feeds[pk]
		if !ok || len(fs.Heads) != len(hs) {
			h.failf("statistics of a feed: %v", fs)
		}
		for n, hd := range hs {
			var x, ok = fs.Heads[n]
			if !ok || x.Len != len(hd.roots) {
				h.failf("statistics of head %d: %v, want %d roots", n, x, len(hd.roots))
			}
			var rs = hd.sorted()
			var same = func(what string, a skyobject.RootStat, r *rootInfo) {
				if a.Hash != r.hash || a.Seq != r.seq || !a.Time.Equal(time.Unix(0, r.time)) {
					h.failf("statistics of the %s root of head %d: %v, want seq %d", what, n, a, r.seq)
				}
			}
			switch len(rs) {
			case 0:
				if x.First.Hash != (hash{}) || x.Last.Hash != (hash{}) {
					h.failf("statistics of blank head: %v", x)
				}
			case 1:
				same("last", x.Last, rs[0]) // (first is for many roots only)
				if x.First.Hash != (hash{}) {
					same("first", x.First, rs[0])
				}
			default:
				same("first", x.First, rs[0])
				same("last", x.Last, rs[len(rs)-1])
			}
		}
	}
}

// check everything after an operation
func (h *hist) check() {
	if h.chk&chkIndex != 0 {
		h.checkIndex()
	}
	if h.chk&chkStat != 0 {
		h.checkStat()
	}
	if h.chk&chkRC != 0 && rapid.IntRange(0, 2).Draw(h.t, "look at counters") == 0 {
		h.liveRC()
	}
	if h.chk&chkClean != 0 {
		h.keysKept()
	}
	if h.chk&(chkClean|chkSave) != 0 && rapid.IntRange(0, 3).Draw(h.t, "look at roots") == 0 {
		h.checkWalks()
	}
}

//
// operations
//

func (h *hist) addFeed() {
	var i = rapid.IntRange(0, len(keys)-1).Draw(h.t, "feed")
	h.note("add feed %d", i)
	h.must(h.sc.AddFeed(keys[i].pk), "add feed")
	if h.feeds[keys[i].pk] == nil {
		h.feeds[keys[i].pk] = map[uint64]*headInfo{}
	}
}

func (h *hist) drawFeed() (i int, ok bool) {
	var ks = h.pks()
	if len(ks) == 0 || rapid.IntRange(0, 15).Draw(h.t, "any feed") == 0 {
		i = rapid.IntRange(0, len(keys)-1).Draw(h.t, "feed")
	} else {
		i = rapid.SampledFrom(ks).Draw(h.t, "feed")
	}
	_, ok = h.feeds[keys[i].pk]
	return
}

func (h *hist) drawNonce(i int, existing bool) (n uint64) {
	var ns = nonces(h.feeds[keys[i].pk])
	if existing && len(ns) > 0 && rapid.IntRange(0, 7).Draw(h.t, "any head") > 0 {
		return rapid.SampledFrom(ns).Draw(h.t, "head")
	}
	return uint64(rapid.IntRange(1, 3).Draw(h.t, "head"))
}

func (h *hist) addHead() {
	var i, ok = h.drawFeed()
	var n = h.drawNonce(i, false)
	h.note("add head %d/%d", i, n)
	var err = h.sc.AddHead(keys[i].pk, n)
	if !ok {
		if err != data.ErrNoSuchFeed {
			h.failf("add head to unknown feed: %v", err)
		}
		return
	}
	h.must(err, "add head")
	if h.feeds[keys[i].pk][n] == nil {
		h.feeds[keys[i].pk][n] = &headInfo{roots: map[uint64]*rootInfo{}}
	}
}

func (h *hist) drop(rs ...*rootInfo) { h.deleted = append(h.deleted, rs...); h.dels += len(rs) }

func (h *hist) del() {
	var i, ok = h.drawFeed()
	var hs = h.feeds[keys[i].pk]
	var pk = keys[i].pk
	switch rapid.SampledFrom([]string{"root", "root", "root", "root", "head", "feed"}).Draw(h.t, "delete") {
	case "root":
		var n = h.drawNonce(i, true)
		var seq = uint64(rapid.IntRange(0, 6).Draw(h.t, "seq"))
		var hd = hs[n]
		if hd != nil && len(hd.roots) > 0 {
			var rs = hd.sorted()
			var j = rapid.IntRange(-1, len(rs)-1).Draw(h.t, "root")
			if j >= 0 {
				seq = rs[j].seq
			}
		}
		h.note("del root %d/%d/%d", i, n, seq)
		var err = h.sc.DelRoot(pk, n, seq)
		switch {
		case !ok:
			if err != data.ErrNoSuchFeed {
				h.failf("delete root of unknown feed: %v", err)
			}
		case hd == nil:
			if err != data.ErrNoSuchHead {
				h.failf("delete root of unknown head: %v", err)
			}
		case hd.roots[seq] == nil:
			if err != data.ErrNotFound {
				h.failf("delete missing root: %v", err)
			}
		default:
			h.must(err, "delete root")
			h.drop(hd.roots[seq])
			delete(hd.roots, seq)
		}
	case "head":
		var n = h.drawNonce(i, true)
		h.note("del head %d/%d", i, n)
		var err = h.sc.DelHead(pk, n)
		var hd = hs[n]
		switch {
		case !ok:
			if err != data.ErrNoSuchFeed {
				h.failf("delete head of unknown feed: %v", err)
			}
		case hd == nil:
			if err != data.ErrNoSuchHead {
				h.failf("delete unknown head: %v", err)
			}
		default:
			h.must(err, "delete head")
			h.drop(hd.sorted()...)
			delete(hs, n)
		}
	case "feed":
		h.note("del feed %d", i)
		var err = h.sc.DelFeed(pk)
		if !ok {
			if err != data.ErrNoSuchFeed {
				h.failf("delete unknown feed: %v", err)
			}
			return
		}
		h.must(err, "delete feed")
		for _, hd := range hs {
			h.drop(hd.sorted()...)
		}
		delete(h.feeds, pk)
	}
}

func (h *hist) removeRoots() {
	var keep = rapid.IntRange(-1, 4).Draw(h.t, "keep")
	h.note("keep last %d", keep)
	h.must(cxoutils.RemoveRootObjects(h.sc, keep), "RemoveRootObjects")
	if keep < 0 {
		keep = 1 << 30
	}
	for _, hs := range h.feeds {
		for _, hd := range hs {
			var rs = hd.sorted()
			for len(rs) > keep {
				h.drop(rs[0])
				delete(hd.roots, rs[0].seq)
				rs = rs[1:]
			}
		}
	}
	if h.chk&chkClean != 0 {
		h.checkIndex()
		h.checkWalks()
	}
}

func (h *hist) removeObjects() {
	h.note("remove objects")
	var _, before = h.content()
	var c = h.counts(before)
	h.must(cxoutils.RemoveObjects(h.sc), "RemoveObjects")
	var _, after = h.content()
	h.present = map[hash]bool{}
	for k := range after {
		h.present[k] = true
		if c.count[k] == 0 && h.held(k) == 0 && h.chk&chkClean != 0 {
			h.failf("ownerless object %s is not removed", h.name(k))
		}
		if _, ok := before[k]; !ok {
			h.failf("RemoveObjects creates an object")
		}
	}
	for _, k := range sortedKeys(before) {
		if _, ok := after[k]; !ok && (c.count[k] > 0 || h.held(k) > 0) {
			h.failf("object %s is removed, but is used %d times (and held %d times)", h.name(k), c.count[k], h.held(k))
		}
	}
}

func (h *hist) reopen() {
	h.note("reopen")
	for _, u := range h.open {
		if rapid.Bool().Draw(h.t, "close unpack") {
			h.must(u.up.Close(), "close Unpack")
		}
	}
	h.open = nil
	h.must(h.sc.Close(), "close")
	h.sc = nil
	if h.dir == "" && h.chk&chkRC != 0 {
		var m = content(h.t, h.db.cx)
		var vs = vals{}
		for k, v := range m {
			vs[k] = []byte(v.val)
		}
		h.storedRC(m, vs)
	}
	h.start()
	if h.dir != "" && h.chk&chkRC != 0 {
		h.storedRC(h.content())
	}
	h.kept = nil
}

// unpack returns new or already opened Unpack
func (h *hist) unpack(i int) (u *unpackInfo) {
	if len(h.open) > 0 && rapid.Bool().Draw(h.t, "opened unpack") {
		u = h.open[0]
		h.open = h.open[1:]
		return
	}
	u = &unpackInfo{key: keys[i], set: map[hash]int{}}
	u.reg = rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(h.t, "registry")
	var err error
	u.up, err = h.sc.Unpack(keys[i].sk, regs[u.reg])
	h.must(err, "Unpack")
	var f registry.Flags
	if rapid.IntRange(0, 3).Draw(h.t, "flags") == 0 {
		f = rapid.SampledFrom([]registry.Flags{registry.LazyUpdating, registry.HashTableIndex, registry.EntireRefs,
			registry.LazyUpdating | registry.HashTableIndex}).Draw(h.t, "flags")
		u.up.AddFlags(f)
	}
	return
}

// store sets closure of the object (or not)
func (h *hist) store(u *unpackInfo, k hash) {
	var s = &spy{u.up, h, u}
	var hs = h.p.closure(k)
	var mode = rapid.SampledFrom([]string{"missing", "missing", "all", "top", "twice", "none"}).Draw(h.t, "store")
	for i, x := range hs {
		if x == (hash{}) {
			continue
		}
		var top = i == len(hs)-1
		var _, _, err = h.sc.Get(x, 0)
		var missing = err == data.ErrNotFound
		if missing && mode == "none" && rapid.IntRange(0, 3).Draw(h.t, "leave missing") == 0 {
			continue
		}
		if missing || mode == "all" || mode == "twice" || top && mode == "top" {
			h.must(s.Set(x, h.p.vals[x]), "set value")
			if mode == "twice" && rapid.Bool().Draw(h.t, "again") {
				h.must(s.Set(x, h.p.vals[x]), "set value")
			}
		}
	}
}

// edit references of a list object through API
func (h *hist) editList(u *unpackInfo, d registry.Dynamic) (res registry.Dynamic, ok bool) {
	var s = &spy{u.up, h, u}
	var l List
	if d.Hash == (hash{}) {
		l.T, l.N = tList, h.p.n
		h.p.n++
	} else if err := d.Value(s, &l); err != nil {
		if err == data.ErrNotFound {
			return
		}
		h.failf("get value of dynamic: %v", err)
	}
	var c = newCounter(func(k hash) (val []byte, ok bool) {
		var err error
		val, _, err = h.sc.Get(k, 0)
		return val, err == nil
	})
	if c.node(l.L.Hash, -1); len(c.miss) > 0 {
		return // nodes or elements are missing
	}
	var model = elements(h.p.vals, l.L.Hash)
	var n = rapid.IntRange(1, 4).Draw(h.t, "edits")
	for i := 0; i < n; i++ {
		var err error
		switch op := rapid.SampledFrom([]string{"append", "append", "value", "del", "set", "slice", "rebuild", "degree", "clear"}).Draw(h.t, "edit"); op {
		case "append":
			var hs []hash
			for j := rapid.IntRange(1, 6).Draw(h.t, "hashes"); j > 0; j-- {
				var x = h.p.some(h.t, tLeaf, 1)
				if x == (hash{}) {
					continue
				}
				h.store(u, x)
				hs = append(hs, x)
			}
			err = l.L.AppendHashes(s, hs...)
			model = append(model, hs...)
		case "value":
			var v = Leaf{tLeaf, h.p.n + 1<<20, "value"}
			h.p.n++
			err = l.L.AppendValues(s, &v, &v)
			var x, herr = l.L.HashByIndex(s, len(model))
			h.must(herr, "hash by index")
			h.p.add(tLeaf, h.p.vals[x])
			model = append(model, x, x)
		case "del":
			if len(model) > 0 {
				var j = rapid.IntRange(0, len(model)-1).Draw(h.t, "index")
				err = l.L.DeleteByIndex(s, j)
				model = append(append([]hash(nil), model[:j]...), model[j+1:]...)
			}
		case "set":
			if len(model) > 0 {
				var j = rapid.IntRange(0, len(model)-1).Draw(h.t, "index")
				var x = h.p.some(h.t, tLeaf, 1)
				if x != (hash{}) {
					h.store(u, x)
				}
				err = l.L.SetHashByIndex(s, j, x)
				model = append([]hash(nil), model...)
				model[j] = x
			}
		case "slice":
			var a = rapid.IntRange(0, len(model)).Draw(h.t, "from")
			var b = rapid.IntRange(a, len(model)).Draw(h.t, "to")
			var sl *registry.Refs
			if sl, err = l.L.Slice(s, a, b); err == nil {
				l.L = *sl
				model = model[a:b]
			}
		case "rebuild":
			err = l.L.Rebuild(s)
		case "degree":
			err = l.L.SetDegree(s, registry.Degree(rapid.IntRange(2, 5).Draw(h.t, "degree")))
		case "clear":
			l.L.Clear()
			model = nil
		}
		if err != nil {
			h.failf("edit of references: %v", err)
		}
	}
	h.must(l.L.Rebuild(s), "rebuild")
	l.N = h.p.n + 1<<24
	h.p.n++
	var sch, err = s.Registry().SchemaByName("t.List")
	h.must(err, "schema")
	res.Schema = sch.Reference()
	h.must(res.SetValue(s, &l), "set value of dynamic")
	h.p.add(tList, h.p.vals[res.Hash])
	if es := elements(h.p.vals, l.L.Hash); fmt.Sprint(es) != fmt.Sprint(model) && len(es)+len(model) > 0 {
		h.failf("references have wrong elements after editing")
	}
	return res, true
}

// change root
func (h *hist) edit(u *unpackInfo, r *registry.Root) {
	var n = rapid.IntRange(0, 4).Draw(h.t, "changes")
	for i := 0; i < n; i++ {
		var op = rapid.SampledFrom([]string{"add", "add", "add", "edit", "edit", "del", "dup", "blank", "garbage"}).Draw(h.t, "change")
		var j = -1
		if len(r.Refs) > 0 {
			j = rapid.IntRange(0, len(r.Refs)-1).Draw(h.t, "branch")
		}
		switch op {
		case "add":
			var typ = uint8(rapid.IntRange(tLeaf, tDeep).Draw(h.t, "type"))
			var k = h.p.some(h.t, typ, 3)
			var d = h.p.dynamicOf(k)
			if k != (hash{}) {
				h.store(u, k)
			}
			r.Refs = append(r.Refs, d)
		case "edit":
			var d registry.Dynamic
			if j >= 0 && r.Refs[j].Schema == schemas[tList] {
				d = r.Refs[j]
			}
			if res, ok := h.editList(u, d); ok {
				if j >= 0 && d.Hash != (hash{}) {
					r.Refs[j] = res
				} else {
					r.Refs = append(r.Refs, res)
				}
			}
		case "del":
			if j >= 0 {
				r.Refs = append(append([]registry.Dynamic(nil), r.Refs[:j]...), r.Refs[j+1:]...)
			}
		case "dup":
			if j >= 0 {
				r.Refs = append(r.Refs, r.Refs[j])
			}
		case "blank":
			r.Refs = append(r.Refs, registry.Dynamic{})
		case "garbage":
			h.store(u, h.p.drawAny(h.t, 1))
		}
	}
}

func (h *hist) closeUnpack(u *unpackInfo) {
	h.must(u.up.Close(), "close Unpack")
}

func (h *hist) save() {
	var i, _ = h.drawFeed()
	var u = h.unpack(i)
	for j := range keys {
		if keys[j] == u.key {
			i = j
		}
	}
	var n = h.drawNonce(i, false)
	var r = new(registry.Root)
	var kind = "new"
	switch k := rapid.IntRange(0, 3).Draw(h.t, "root"); {
	case k == 0:
	case k == 1 && len(h.kept) > 0:
		r = rapid.SampledFrom(h.kept).Draw(h.t, "kept root")
		kind = "kept"
	default:
		if x, err := h.sc.LastRoot(keys[i].pk, n); err == nil {
			r = x
			kind = "last"
		}
	}
	r.Pub, r.Nonce = keys[i].pk, n
	if r.Reg != (registry.RegistryRef{}) && len(r.Refs) > 0 && rapid.IntRange(0, 3).Draw(h.t, "keep registry") > 0 {
		if r.Reg != regs[u.reg].Reference() {
			h.note("(another registry)")
			r.Refs = nil
		}
	}
	if kind == "new" && rapid.Bool().Draw(h.t, "fields") {
		r.Seq, r.Prev = 17, hash{1}
		r.Descriptor = []byte("descriptor")
	}
	h.note("save %d/%d %s", i, n, kind)
	h.edit(u, r)
	for {
		h.saveOnce(i, n, u, r)
		if rapid.IntRange(0, 2).Draw(h.t, "save again") > 0 {
			break
		}
		h.note("again")
		h.edit(u, r)
	}
	switch rapid.IntRange(0, 4).Draw(h.t, "leave unpack") {
	case 0:
		h.note("leave unpack")
		h.open = append(h.open, u)
	default:
		h.closeUnpack(u)
	}
}

func (h *hist) saveOnce(i int, n uint64, u *unpackInfo, r *registry.Root) {
	var pk = keys[i].pk
	var hd = h.feeds[pk][n]
	var wantErr = ""
	if _, ok := h.feeds[pk]; !ok {
		wantErr = "unknown feed"
	}
	var orig = *r
	switch rapid.IntRange(0, 30).Draw(h.t, "wrong") {
	case 0:
		r.Pub = cipher.PubKey{}
		wantErr = "blank feed"
	case 1:
		r.Nonce = 0
		wantErr = "zero head"
	case 2:
		r.Pub = keys[(i+1)%len(keys)].pk
		wantErr = "key of another feed"
	case 3:
		// the root can not be encoded into allowed size
		r.Descriptor = make([]byte, h.conf.MaxObjectSize+1)
		wantErr = "too large root"
	}
	if r.Reg != (registry.RegistryRef{}) && r.Reg != regs[u.reg].Reference() && len(r.Refs) > 0 {
		wantErr = "another registry"
	}
	var m, vs = h.content()
	_ = m
	var c = newCounter(getIn(vs))
	for _, d := range r.Refs {
		c.object(d.Hash)
	}
	var missing = len(c.miss) > 0
	if missing && wantErr == "" {
		wantErr = "missing object"
	}
	var start = time.Now().UnixNano()
	var err = h.sc.Save(u.up, r)
	if err != nil {
		if wantErr == "" {
			h.failf("save: %v", err)
		}
		h.note("(%s)", wantErr)
		h.c.Class("save: " + wantErr)
		*r = orig
		return
	}
	if wantErr != "" {
		h.failf("saved, but: %s", wantErr)
	}
	u.set = map[hash]int{} // released
	h.saves++
	var ri = infoOf(r)
	if hd == nil {
		hd = &headInfo{roots: map[uint64]*rootInfo{}}
		h.feeds[pk][n] = hd
	}
	if h.chk&chkSave != 0 {
		var wseq uint64
		var wprev hash
		if l := hd.last(); l != nil {
			wseq, wprev = l.seq+1, l.hash
		}
		var end = time.Now().UnixNano()
		switch {
		case r.Seq != wseq || r.Prev != wprev:
			h.failf("saved root has number %d and previous %s, want %d and %s", r.Seq, short(r.Prev), wseq, short(wprev))
		case r.Hash != hashOf(ri.val):
			h.failf("hash of saved root is not hash of its encoding")
		case cipher.VerifyPubKeySignedHash(pk, r.Sig, r.Hash) != nil:
			h.failf("signature of saved root is invalid")
		case !r.IsFull:
			h.failf("saved root is not full")
		case r.Pub != pk || r.Nonce != n || r.Reg != regs[u.reg].Reference():
			h.failf("saved root has another feed, head or registry")
		case r.Time < start || r.Time > end:
			h.failf("saved root has wrong time")
		case fmt.Sprint(r.Refs) != fmt.Sprint(orig.Refs) || !bytes.Equal(r.Descriptor, orig.Descriptor):
			h.failf("content of the root is changed by saving")
		}
		var x, err = h.sc.LastRoot(pk, n)
		h.must(err, "last root after saving")
		h.sameRoot(x, ri, "last")
		if x.Seq != r.Seq || x.Prev != r.Prev || x.Pub != pk || x.Nonce != n || x.Time != r.Time {
			h.failf("read root has other fields than saved one")
		}
		_, vs = h.content()
		h.walkRoot(x, vs)
		for _, k := range sortedKeys(vs) {
			if v, ok := h.p.vals[k]; ok && !bytes.Equal(v, vs[k]) {
				h.failf("value of %s is changed", h.name(k))
			}
		}
	}
	hd.roots[r.Seq] = ri
	h.kept = append(h.kept, r)
	if len(h.kept) > 4 {
		h.kept = h.kept[1:]
	}
}

// abandon creates objects and closes the Unpack
func (h *hist) abandon() {
	var i, _ = h.drawFeed()
	var u = h.unpack(i)
	h.note("unpack and close")
	var r registry.Root
	h.edit(u, &r)
	h.closeUnpack(u)
}

// fill adds a root received from outside
func (h *hist) fill() {
	var i, _ = h.drawFeed()
	var r = new(registry.Root)
	r.Pub, r.Nonce = keys[i].pk, h.drawNonce(i, false)
	r.Seq = uint64(rapid.IntRange(0, 8).Draw(h.t, "seq"))
	if r.Seq > 0 {
		r.Prev = hash{byte(r.Seq), byte(rapid.IntRange(0, 1).Draw(h.t, "prev"))}
	}
	r.Time = int64(rapid.IntRange(1, 9).Draw(h.t, "time"))
	if rapid.Bool().Draw(h.t, "new time") {
		r.Time += 1 << 62
	}
	var reg = rapid.SampledFrom([]int{0, 0, 1}).Draw(h.t, "registry")
	r.Reg = regs[reg].Reference()
	h.p.vals[regKeys[reg]] = regs[reg].Encode()
	var src = rapid.IntRange(0, 3).Draw(h.t, "source")
	var rs = h.roots()
	sort.Slice(rs, func(a, b int) bool { return bytes.Compare(rs[a].hash[:], rs[b].hash[:]) < 0 })
	if src == 0 && len(rs) > 0 {
		r.Refs = append(r.Refs, rapid.SampledFrom(rs).Draw(h.t, "like").refs...)
	}
	for j := rapid.IntRange(0, 3).Draw(h.t, "branches"); j > 0; j-- {
		r.Refs = append(r.Refs, h.p.dynamic(h.t, 3))
	}
	var val = r.Encode()
	r.Hash = hashOf(val)
	var err error
	r.Sig, err = cipher.SignHash(r.Hash, keys[i].sk)
	h.must(err, "sign")
	// received
	var x *registry.Root
	x, err = h.sc.ReceivedRoot(r.Pub, r.Sig, val)
	var hs, ok = h.feeds[r.Pub]
	if !ok {
		if err == nil {
			h.failf("root of unknown feed is accepted")
		}
		return
	}
	h.must(err, "received root")
	var hd = hs[r.Nonce]
	var dup = hd != nil && hd.roots[r.Seq] != nil
	if x.IsFull != dup {
		h.failf("IsFull of received root is %v, want %v", x.IsFull, dup)
	}
	var fail = -1
	if rapid.IntRange(0, 3).Draw(h.t, "fail") == 0 {
		fail = rapid.IntRange(0, 5).Draw(h.t, "fail after")
	}
	h.note("fill %d/%d/%d reg %d refs %d fail %d", i, r.Nonce, r.Seq, reg, len(r.Refs), fail)
	var rq = make(chan cipher.SHA256)
	var f = h.sc.Fill(x, rq, rapid.IntRange(0, 3).Draw(h.t, "parallel"))
	var quit = make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; ; n++ {
			select {
			case k := <-rq:
				if n == fail {
					f.Fail(fmt.Errorf("failed as required"))
					continue
				}
				h.sc.SetWanted(k, h.p.vals[k])
			case <-quit:
				return
			}
		}
	}()
	pbt.Within(hangs, "filling", func() { err = f.Run() })
	f.Close()
	close(quit)
	wg.Wait()
	if err != nil {
		if fail < 0 {
			h.failf("filling: %v", err)
		}
		if x.IsFull {
			h.failf("root is full after failed filling")
		}
		h.c.Class("failed filling")
		return
	}
	if !x.IsFull {
		h.failf("root is not full after filling")
	}
	if dup {
		h.c.Class("filling of existing root")
		return
	}
	if hd == nil {
		hd = &headInfo{roots: map[uint64]*rootInfo{}}
		hs[r.Nonce] = hd
	}
	hd.roots[r.Seq] = infoOf(r)
	h.saves++
}

func (h *hist) op(name string) {
	switch name {
	case "feed":
		h.addFeed()
	case "head":
		h.addHead()
	case "save":
		h.save()
	case "abandon":
		h.abandon()
	case "fill":
		h.fill()
	case "del":
		h.del()
	case "remove roots":
		h.removeRoots()
	case "remove objects":
		h.removeObjects()
	case "reopen":
		h.reopen()
	}
}

func runHist(t *rapid.T, c *pbt.Case, chk, max int, ops []string) {
	var h = newHist(t, c, chk)
	defer h.finish()
	for i := rapid.IntRange(1, 3).Draw(t, "feeds"); i > 0; i-- {
		h.addFeed()
	}
	for i := rapid.IntRange(1, max).Draw(t, "ops"); i > 0; i-- {
		var op = rapid.SampledFrom(ops).Draw(t, "op")
		pbt.Within(hangs, "operation "+op, func() {
			h.op(op)
			h.check()
		})
	}
	pbt.Within(hangs, "reopening", func() {
		h.reopen()
		h.check()
	})
	if h.saves > 1 {
		c.NonTrivial()
	}
	if h.dels > 0 {
		c.Class("with deletions")
	}
}

func TestS01(t *testing.T) {
	pbt.Check(t, "save", 800, 6000, func(t *rapid.T, c *pbt.Case) {
		runHist(t, c, chkSave, 10, []string{"save", "save", "save", "save", "save", "fill", "del", "remove objects", "remove roots", "reopen", "abandon", "head"})
	})
}

func TestS02(t *testing.T) {
	pbt.Check(t, "counters", 800, 6000, func(t *rapid.T, c *pbt.Case) {
		runHist(t, c, chkRC, 12, []string{"save", "save", "save", "save", "fill", "fill", "del", "del", "remove objects", "remove roots", "reopen", "abandon", "feed"})
	})
}

func TestS03(t *testing.T) {
	pbt.Check(t, "clean-up", 800, 6000, func(t *rapid.T, c *pbt.Case) {
		runHist(t, c, chkClean, 14, []string{"save", "save", "save", "save", "fill", "fill", "del", "del", "remove objects", "remove objects", "remove roots", "reopen", "abandon", "feed"})
	})
}

func TestS05(t *testing.T) {
	pbt.Check(t, "index", 800, 6000, func(t *rapid.T, c *pbt.Case) {
		runHist(t, c, chkIndex, 16, []string{"save", "save", "fill", "fill", "fill", "del", "del", "remove objects", "remove roots", "reopen", "feed", "head"})
	})
}

func TestS10(t *testing.T) {
	pbt.Check(t, "statistics", 800, 6000, func(t *rapid.T, c *pbt.Case) {
		runHist(t, c, chkStat, 14, []string{"save", "save", "save", "fill", "fill", "del", "del", "remove objects", "remove roots", "reopen", "feed", "head"})
	})
}
