package tsky

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// state of a container: store, index and statistics
func (h *hist) state() string {
	var _, vs = h.content()
	var s string
	for _, k := range sortedKeys(vs) {
		var _, rc, err = h.sc.Get(k, 0)
		s += fmt.Sprintln(k.Hex(), rc, err)
	}
	h.checkIndex()
	var st = h.sc.Stat()
	s += fmt.Sprint(st.AllObjects, st.UsedObjects)
	var pks []string
	for pk, fs := range st.Feeds {
		for n, hs := range fs.Heads {
			pks = append(pks, fmt.Sprint(pk.Hex(), n, hs.Len, hs.First.Hash, hs.Last.Hash))
		}
	}
	sort.Strings(pks)
	return s + fmt.Sprint(pks)
}

func drawBytes(t *rapid.T, name string, val []byte) (m []byte) {
	m = append([]byte(nil), val...)
	switch rapid.SampledFrom([]string{"flip", "flip", "byte", "cut", "extend", "swap", "drop"}).Draw(t, "alter "+name) {
	case "flip":
		if len(m) > 0 {
			var i = rapid.IntRange(0, len(m)*8-1).Draw(t, "bit")
			m[i/8] ^= 1 << (i % 8)
		}
	case "byte":
		if len(m) > 0 {
			m[rapid.IntRange(0, len(m)-1).Draw(t, "place")] = rapid.Byte().Draw(t, "byte")
		}
	case "cut":
		m = m[:rapid.IntRange(0, len(m)).Draw(t, "cut")]
	case "extend":
		m = append(m, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "tail")...)
	case "swap":
		if len(m) > 1 {
			var i, j = rapid.IntRange(0, len(m)-1).Draw(t, "i"), rapid.IntRange(0, len(m)-1).Draw(t, "j")
			m[i], m[j] = m[j], m[i]
		}
	case "drop":
		if len(m) > 0 {
			var i = rapid.IntRange(0, len(m)-1).Draw(t, "i")
			m = append(m[:i], m[i+1:]...)
		}
	}
	return
}

// TestS06 alters authentic roots
func TestS06(t *testing.T) {
	pbt.Check(t, "receive", 500, 5000, func(t *rapid.T, c *pbt.Case) {
		var h = newHist(t, c, 0)
		defer h.finish()
		h.prepare(5)
		for i := rapid.IntRange(1, 5).Draw(t, "roots"); i > 0; i-- {
			h.receiveAltered()
		}
	})
}

type received struct {
	pk  cipher.PubKey
	sig cipher.Sig
	val []byte
	k   int // key the sig is made with, -1 - unknown
}

func (h *hist) receiveAltered() {
	var t = h.t
	var i, _ = h.drawFeed()
	var r = h.drawRoot(i)
	var stored = h.roots()
	var old *rootInfo
	if len(stored) > 0 && rapid.IntRange(0, 1).Draw(t, "stored root") == 0 {
		sort.Slice(stored, func(a, b int) bool { return bytes.Compare(stored[a].hash[:], stored[b].hash[:]) < 0 })
		old = rapid.SampledFrom(stored).Draw(t, "stored")
	}
	var in received
	if old == nil {
		in = received{r.Pub, r.Sig, r.Encode(), i}
	} else {
		in = received{old.pk, old.sig, append([]byte(nil), old.val...), -1}
		for i := range keys {
			if keys[i].pk == old.pk {
				in.k = i
			}
		}
	}
	var orig = in
	var sign = func(k int) {
		var err error
		in.k = k
		in.sig, err = cipher.SignHash(hashOf(in.val), keys[k].sk)
		h.must(err, "sign")
	}
	var kind = rapid.SampledFrom([]string{"none", "value", "value", "value", "signature", "key", "feed", "stolen", "resigned", "fields", "mixed"}).Draw(t, "kind")
	switch kind {
	case "value":
		in.val = drawBytes(t, "value", in.val)
	case "signature":
		copy(in.sig[:], drawBytes(t, "signature", in.sig[:]))
	case "key":
		copy(in.pk[:], drawBytes(t, "key", in.pk[:]))
	case "feed":
		// the root of one feed, said to be of another
		in.pk = rapid.SampledFrom(keys).Draw(t, "key").pk
	case "stolen":
		// signed by owner of another feed
		sign(rapid.IntRange(0, len(keys)-1).Draw(t, "signer"))
		if rapid.Bool().Draw(t, "claimed") {
			in.pk = keys[in.k].pk
		}
	case "resigned":
		// the owner signs garbage
		in.val = drawBytes(t, "value", in.val)
		sign(in.k)
	case "fields":
		// the owner signs strange root
		var x, err = registry.DecodeRoot(in.val)
		h.must(err, "decode")
		switch rapid.SampledFrom([]string{"nonce", "seq", "prev", "no prev", "reg", "pub", "blank pub", "time", "huge"}).Draw(t, "field") {
		case "nonce":
			x.Nonce = rapid.SampledFrom([]uint64{0, math.MaxUint64}).Draw(t, "nonce")
		case "seq":
			x.Seq = rapid.SampledFrom([]uint64{0, 1 << 63, math.MaxUint64}).Draw(t, "seq")
		case "prev":
			x.Seq, x.Prev = 0, hash{7}
		case "no prev":
			x.Seq, x.Prev = 3, hash{}
		case "reg":
			x.Reg = registry.RegistryRef{}
		case "pub":
			x.Pub = rapid.SampledFrom(keys).Draw(t, "key").pk
		case "blank pub":
			x.Pub = cipher.PubKey{}
		case "time":
			x.Time = rapid.SampledFrom([]int64{math.MinInt64, -1, 0, math.MaxInt64}).Draw(t, "time")
		case "huge":
			x.Descriptor = make([]byte, h.conf.MaxObjectSize+1)
		}
		in.val = x.Encode()
		sign(in.k)
	case "mixed":
		// signature of another root of the same feed
		var other = h.drawRoot(in.k)
		in.sig = other.Sig
	}
	var changed = in.pk != orig.pk || in.sig != orig.sig || !bytes.Equal(in.val, orig.val)
	h.c.Class(kind)
	h.note("%s changed %v", kind, changed)
	if changed {
		h.c.NonTrivial()
	}
	var before = h.state()
	var x, err = h.sc.ReceivedRoot(in.pk, in.sig, in.val)
	var p, perr = h.sc.PreviewRoot(in.pk, in.sig, in.val)
	// reasons to reject
	var why string
	var dec, derr = registry.DecodeRoot(in.val)
	switch {
	case cipher.VerifyPubKeySignedHash(in.pk, in.sig, hashOf(in.val)) != nil:
		why = "invalid signature"
	case derr != nil:
		why = "malformed root"
	case !bytes.Equal(dec.Encode(), in.val):
		why = "not an encoding of the root"
	case dec.Pub != in.pk:
		why = "root of another feed"
	}
	if why != "" && perr == nil {
		h.failf("previewed root is accepted: %s", why)
	}
	if why == "" && perr != nil {
		h.failf("authentic previewed root is rejected: %v", perr)
	}
	if _, ok := h.feeds[in.pk]; why == "" && !ok {
		why = "unknown feed"
	}
	if why != "" && err == nil {
		h.failf("received root is accepted: %s", why)
	}
	if why == "" && err != nil {
		h.failf("authentic root is rejected: %v", err)
	}
	if kind != "none" && kind != "resigned" && kind != "fields" && changed && err == nil {
		var fine bool // the signer is the owner and the feed is claimed
		fine = kind == "stolen" && dec != nil && dec.Pub == in.pk && keys[in.k].pk == in.pk
		if !fine {
			h.failf("altered (%s) root is accepted", kind)
		}
	}
	if s := h.state(); s != before {
		h.failf("receiving of a root changes the state: %s before: %s", s, before)
	}
	if perr == nil {
		if p.Hash != hashOf(in.val) || p.Sig != in.sig || !bytes.Equal(p.Encode(), in.val) {
			h.failf("previewed root has other fields")
		}
		if p.IsFull {
			h.failf("previewed root is full")
		}
	}
	if err != nil {
		return
	}
	if x.Hash != hashOf(in.val) || x.Sig != in.sig || !bytes.Equal(x.Encode(), in.val) {
		h.failf("received root has other fields")
	}
	// the one the container has
	var hd = h.feeds[x.Pub][x.Nonce]
	var has = hd != nil && hd.roots[x.Seq] != nil
	if x.IsFull != has {
		h.failf("IsFull of received root is %v, has %v", x.IsFull, has)
	}
	if has {
		h.c.Class("known root")
		return
	}
	if kind != "fields" && kind != "resigned" {
		return
	}
	// authentic, but strange: filling must add it or leave no trace
	h.c.Class("strange root")
	var s = h.source(inPool(h.p))
	s.onMiss = func(k hash) {}
	var f = h.sc.Fill(x, s.rq, 2)
	s.onMiss = func(k hash) { f.Fail(errRequired) }
	s.start(2)
	var ferr error
	pbt.Within(hangs, "filling", func() {
		ferr = f.Run()
		f.Close()
	})
	s.stop()
	h.note("filling of strange root: %v", ferr)
	if ferr == nil {
		if hd == nil {
			hd = &headInfo{roots: map[uint64]*rootInfo{}}
			h.feeds[x.Pub][x.Nonce] = hd
		}
		hd.roots[x.Seq] = infoOf(x)
	}
	h.checkIndex()
	h.liveRC()
}

var errRemote = errors.New("remote failed as required")

type remote struct {
	h     *hist
	count map[hash]int
	mode  string
	fail  int
	n     int
}

func (r *remote) Get(k cipher.SHA256) (val []byte, err error) {
	r.n++
	if r.mode == "fail" && r.n > r.fail {
		return nil, errRemote
	}
	r.count[k]++
	var v, ok = r.h.p.vals[k]
	if !ok {
		return nil, errRemote
	}
	return append([]byte(nil), v...), nil
}

// TestS09 previews roots
func TestS09(t *testing.T) {
	pbt.Check(t, "preview", 500, 5000, func(t *rapid.T, c *pbt.Case) {
		var h = newHist(t, c, 0)
		defer h.finish()
		h.prepare(5)
		for i := rapid.IntRange(1, 3).Draw(t, "previews"); i > 0; i-- {
			h.preview()
		}
	})
}

func (h *hist) preview() {
	var t = h.t
	var i = rapid.IntRange(0, len(keys)-1).Draw(t, "feed")
	var in = h.drawRoot(i)
	var r, err = h.sc.PreviewRoot(in.Pub, in.Sig, in.Encode())
	h.must(err, "PreviewRoot")
	var before = h.state()
	var _, vs = h.content()
	var rm = &remote{h: h, count: map[hash]int{}}
	if rapid.IntRange(0, 2).Draw(t, "fails") == 0 {
		rm.mode = "fail"
		rm.fail = rapid.IntRange(0, 6).Draw(t, "fail after")
	}
	h.note("preview of root %d/%d/%d refs %d %s", i, r.Nonce, r.Seq, len(r.Refs), rm.mode)
	var pack, perr = h.sc.Preview(r, rm)
	var want = newCounter(inPool(h.p))
	for _, d := range r.Refs {
		want.object(d.Hash)
	}
	var failed bool
	if perr != nil {
		if rm.mode != "fail" || rm.n <= rm.fail {
			h.failf("preview: %v", perr)
		}
		failed = true
	} else {
		if pack.Root() != r {
			h.failf("preview of another root")
		}
		for n := rapid.IntRange(1, 2).Draw(t, "reads"); n > 0; n-- {
			var seen = map[hash]bool{}
			err = r.Walk(pack, func(k cipher.SHA256, _ int) (deeper bool, err error) {
				if k == (hash{}) || seen[k] {
					return
				}
				var val []byte
				if val, err = pack.Get(k); err != nil {
					return
				}
				if !bytes.Equal(val, h.p.vals[k]) {
					h.failf("preview gives wrong value of %s", h.name(k))
				}
				seen[k] = true
				return true, nil
			})
			if err != nil {
				if rm.mode != "fail" || rm.n <= rm.fail {
					h.failf("walk through previewed root: %v", err)
				}
				if !errors.Is(err, errRemote) {
					h.failf("walk returns another error: %v", err)
				}
				failed = true
				rm.mode = "" // and now it should be fine
				continue
			}
			for k := range want.count {
				if !seen[k] {
					h.failf("object %s is not previewed", h.name(k))
				}
			}
			if len(seen) != len(want.count) {
				h.failf("%d objects are previewed, want %d", len(seen), len(want.count))
			}
			var tree string
			if tree, err = r.Tree(pack); err != nil || tree == "" {
				h.failf("tree of previewed root: %v", err)
			}
		}
	}
	for k, n := range rm.count {
		if _, ok := vs[k]; ok {
			h.failf("object %s is requested from the remote side, but the store has it", h.name(k))
		}
		if _, ok := want.count[k]; !ok && k != hash(r.Reg) {
			h.failf("object %s is requested, but the root has not it", h.name(k))
		}
		if n > 1 {
			h.failf("object %s is requested %d times", h.name(k), n)
		}
	}
	if len(rm.count) > 0 && len(rm.count) < len(want.count)+1 {
		h.c.NonTrivial()
	}
	if failed {
		h.c.Class("remote failed")
	}
	if s := h.state(); s != before {
		h.failf("preview changes the state: %s\nbefore: %s", s, before)
	}
}

var _ sync.Mutex
