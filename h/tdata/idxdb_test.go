package tdata

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"
	"time"

	"github.com/boltdb/bolt"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"

	"verif/h/pbt"
)

const hang = 60 * time.Second

// reference model of the index

type (
	// a root, its access time is between Access and hi
	mRoot struct {
		data.Root
		hi int64
	}
	mRoots map[uint64]mRoot
	mHeads map[uint64]mRoots
	mFeeds map[cipher.PubKey]mHeads
)

func (m mFeeds) clone() mFeeds {
	var c = make(mFeeds)
	for pk, hs := range m {
		c[pk] = make(mHeads)
		for n, rs := range hs {
			c[pk][n] = make(mRoots)
			for s, r := range rs {
				c[pk][n][s] = r
			}
		}
	}
	return c
}

func (m mFeeds) keys() (ks []cipher.PubKey) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return string(ks[i][:]) < string(ks[j][:]) })
	return
}

func (m mHeads) keys() (ks []uint64) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return
}

func (m mRoots) keys() (ks []uint64) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return
}

// there are a few elements in every case
func endless(n int) error {
	if n > 1000 {
		return fmt.Errorf("endless iteration")
	}
	return nil
}

// set or touch
func (m mRoots) set(r *data.Root, before int64) {
	if _, ok := m[r.Seq]; ok {
		m.touch(r.Seq, before)
		return
	}
	m[r.Seq] = mRoot{*r, r.Access}
}

// the root is accessed after given time
func (m mRoots) touch(seq uint64, before int64) {
	var r = m[seq]
	r.Access, r.hi = before, time.Now().UnixNano()
	m[seq] = r
}

// all but times (of creation and access)
func same1(a, b data.Root) bool {
	a.Create, a.Access, b.Create, b.Access = 0, 0, 0, 0
	return a == b
}

// like same1, and creation and access times are as they should be
func (m mRoot) same(r data.Root) bool {
	return same1(r, m.Root) && r.Create == m.Create && r.Access >= m.Access && r.Access <= m.hi
}

// compare entire index with the model by all reading methods
func idxSame(m mFeeds, fs data.Feeds) (err error) {
	if fs.Len() != len(m) {
		return fmt.Errorf("number of feeds %d, want %d", fs.Len(), len(m))
	}
	var got []cipher.PubKey
	if err = fs.Iterate(func(pk cipher.PubKey) error { got = append(got, pk); return endless(len(got)) }); err != nil {
		return
	}
	if fmt.Sprint(got) != fmt.Sprint(m.keys()) {
		return fmt.Errorf("feeds %v, want %v", got, m.keys())
	}
	for pk, mh := range m {
		if ok, err := fs.Has(pk); !ok || err != nil {
			return fmt.Errorf("Has feed: %v %v", ok, err)
		}
		hs, err := fs.Heads(pk)
		if err != nil {
			return fmt.Errorf("Heads: %v", err)
		}
		if hs.Len() != len(mh) {
			return fmt.Errorf("number of heads %d, want %d", hs.Len(), len(mh))
		}
		var gn []uint64
		if err = hs.Iterate(func(n uint64) error { gn = append(gn, n); return endless(len(gn)) }); err != nil {
			return err
		}
		if fmt.Sprint(gn) != fmt.Sprint(mh.keys()) {
			return fmt.Errorf("heads %v, want %v", gn, mh.keys())
		}
		for n, mr := range mh {
			if ok, err := hs.Has(n); !ok || err != nil {
				return fmt.Errorf("Has head: %v %v", ok, err)
			}
			rs, err := hs.Roots(n)
			if err != nil {
				return fmt.Errorf("Roots: %v", err)
			}
			if rs.Len() != len(mr) {
				return fmt.Errorf("number of roots %d, want %d", rs.Len(), len(mr))
			}
			var up, down []data.Root
			if err = rs.Ascend(func(r *data.Root) error { up = append(up, *r); return endless(len(up)) }); err != nil {
				return err
			}
			if err = rs.Descend(func(r *data.Root) error { down = append(down, *r); return endless(len(down)) }); err != nil {
				return err
			}
			var ks = mr.keys()
			if len(up) != len(ks) || len(down) != len(ks) {
				return fmt.Errorf("Ascend visits %d, Descend %d of %d roots", len(up), len(down), len(ks))
			}
			for i, s := range ks {
				if !mr[s].same(up[i]) {
					return fmt.Errorf("Ascend: root %d is not the one that was set", s)
				}
				if !mr[s].same(down[len(ks)-1-i]) {
					return fmt.Errorf("Descend: root %d is not the one that was set", s)
				}
				if ok, err := rs.Has(s); !ok || err != nil {
					return fmt.Errorf("Has root: %v %v", ok, err)
				}
			}
		}
	}
	return
}

type idxPool struct {
	pks    []cipher.PubKey
	nonces []uint64
	seqs   []uint64
}

func drawIdxPool(t *rapid.T) (p idxPool) {
	for i, n := 0, rapid.IntRange(1, 4).Draw(t, "feeds"); i < n; i++ {
		var pk cipher.PubKey
		switch rapid.IntRange(0, 5).Draw(t, "pk kind") {
		case 0:
			for j := range pk {
				pk[j] = 0xff
			}
			pk[32] -= byte(i)
		case 1:
			pk[32] = byte(i)
		case 2:
			pk[0] = 2
			for j := 1; j < 33; j++ {
				pk[j] = 0xff
			}
			pk[1] = byte(i)
		default:
			pk[0] = byte(2 + i%2)
			pk[1+i] = rapid.Byte().Draw(t, "b")
			pk[32] = byte(i)
		}
		p.pks = append(p.pks, pk)
	}
	var edge = []uint64{0, 1, 2, 3, 4, 5, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1}
	p.nonces = rapid.SliceOfNDistinct(rapid.SampledFrom(edge), 1, 4, rapid.ID[uint64]).Draw(t, "nonces")
	p.seqs = rapid.SliceOfNDistinct(rapid.SampledFrom(edge), 1, 8, rapid.ID[uint64]).Draw(t, "seqs")
	return
}

func drawRoot(t *rapid.T, seq uint64) (r *data.Root) {
	var salt = rapid.IntRange(0, 3).Draw(t, "salt")
	r = new(data.Root)
	r.Seq = seq
	r.Time = int64(seq)*7 + int64(salt) + 1
	if r.Time == 0 {
		r.Time = 1
	}
	r.Hash = cipher.SumSHA256([]byte(fmt.Sprint("hash", seq, salt)))
	if seq > 0 {
		r.Prev = cipher.SumSHA256([]byte(fmt.Sprint("prev", seq, salt)))
	}
	for i := range r.Sig {
		r.Sig[i] = byte(salt + i + 1)
	}
	return
}

// a broken root the index must refuse
func drawInvalid(t *rapid.T, seq uint64) (r *data.Root) {
	r = drawRoot(t, seq)
	switch rapid.IntRange(0, 4).Draw(t, "broken") {
	case 0:
		r.Hash = cipher.SHA256{}
	case 1:
		r.Sig = cipher.Sig{}
	case 2:
		r.Time = 0
	default:
		if seq == 0 {
			r.Prev = r.Hash
		} else {
			r.Prev = cipher.SHA256{}
		}
	}
	return
}

type idxMut struct {
	op    string
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	root  *data.Root
}

func (x idxMut) String() string {
	switch x.op {
	case "addfeed", "delfeed":
		return fmt.Sprintf("%s %x", x.op, x.pk[30:])
	case "addhead", "delhead":
		return fmt.Sprintf("%s %x/%d", x.op, x.pk[30:], x.nonce)
	}
	return fmt.Sprintf("%s %x/%d/%d", x.op, x.pk[30:], x.nonce, x.seq)
}

// walk over roots changing them
func walkRoots(t *rapid.T, c *pbt.Case, p idxPool, rs data.Roots, mr mRoots) {
	var (
		desc  = rapid.Bool().Draw(t, "descend")
		steps = rapid.IntRange(1, len(mr)+3).Draw(t, "stop after")
		ret   = rapid.SampledFrom([]error{nil, data.ErrStopIteration, errTest}).Draw(t, "return")
		n     int
		last  uint64
	)
	c.Note("walk desc=%v [", desc)
	var next = func() (s uint64, ok bool) {
		var ks = mr.keys()
		if desc {
			for i := len(ks) - 1; i >= 0; i-- {
				if n == 0 || ks[i] < last {
					return ks[i], true
				}
			}
			return
		}
		for _, k := range ks {
			if n == 0 || k > last {
				return k, true
			}
		}
		return
	}
	var walk = rs.Ascend
	if desc {
		walk = rs.Descend
	}
	var stopped bool
	var err = walk(func(r *data.Root) error {
		if stopped {
			t.Fatalf("iteration goes on after stop")
		}
		var want, ok = next()
		if !ok {
			t.Fatalf("unexpected root %d visited in %s", r.Seq, c)
		}
		if r.Seq != want || !mr[want].same(*r) {
			t.Fatalf("visited root %d, want %d in %s", r.Seq, want, c)
		}
		n++
		last = r.Seq
		if n == steps {
			stopped = ret != nil
			return ret
		}
		switch rapid.IntRange(0, 5).Draw(t, "mutate") {
		case 0:
			c.Class("walk deletes current")
			c.NonTrivial()
			c.Note("del %d", last)
			if err := rs.Del(last); err != nil {
				return err
			}
			delete(mr, last)
		case 1:
			var s = rapid.SampledFrom(p.seqs).Draw(t, "seq")
			c.NonTrivial()
			c.Note("del %d", s)
			if err := rs.Del(s); err != nil {
				return err
			}
			delete(mr, s)
		case 2:
			var s = rapid.SampledFrom(p.seqs).Draw(t, "seq")
			c.NonTrivial()
			c.Note("set %d", s)
			var r = drawRoot(t, s)
			var before = time.Now().UnixNano()
			if err := rs.Set(r); err != nil {
				return err
			}
			mr.set(r, before)
		}
		return nil
	})
	c.Note("]")
	if stopped && ret == errTest {
		if err != errTest {
			t.Fatalf("error of the walking function is lost: %v", err)
		}
		return
	}
	if err != nil {
		t.Fatalf("walk: %v", err)
	}
	if !stopped {
		if s, ok := next(); ok {
			t.Fatalf("root %d is not visited in %s", s, c)
		}
	}
}

func walkFeeds(t *rapid.T, c *pbt.Case, p idxPool, fs data.Feeds, m mFeeds) {
	var (
		steps   = rapid.IntRange(1, len(m)+3).Draw(t, "stop after")
		ret     = rapid.SampledFrom([]error{nil, data.ErrStopIteration, errTest}).Draw(t, "return")
		stopped bool
		n       int
		last    cipher.PubKey
	)
	c.Note("walk feeds [")
	var next = func() (s cipher.PubKey, ok bool) {
		for _, k := range m.keys() {
			if n == 0 || string(k[:]) > string(last[:]) {
				return k, true
			}
		}
		return
	}
	var err = fs.Iterate(func(pk cipher.PubKey) error {
		if stopped {
			t.Fatalf("iteration goes on after stop")
		}
		var want, ok = next()
		if !ok || pk != want {
			t.Fatalf("unexpected feed %x visited in %s", pk[:], c)
		}
		n++
		last = pk
		if n == steps {
			stopped = ret != nil
			return ret
		}
		var x = rapid.SampledFrom(p.pks).Draw(t, "pk")
		switch rapid.IntRange(0, 4).Draw(t, "mutate") {
		case 0:
			x = last
			fallthrough
		case 1:
			c.NonTrivial()
			if _, ok := m[x]; !ok {
				break
			}
			c.Note("del %x", x[30:])
			if err := fs.Del(x); err != nil {
				return err
			}
			delete(m, x)
		case 2:
			c.NonTrivial()
			c.Note("add %x", x[30:])
			if err := fs.Add(x); err != nil {
				return err
			}
			if m[x] == nil {
				m[x] = make(mHeads)
			}
		}
		return nil
	})
	c.Note("]")
	if stopped && ret == errTest {
		if err != errTest {
			t.Fatalf("error of the walking function is lost: %v", err)
		}
		return
	}
	if err != nil {
		t.Fatalf("Iterate feeds: %v", err)
	}
	if s, ok := next(); ok && !stopped {
		t.Fatalf("feed %x is not visited in %s", s[:], c)
	}
}

// walk over heads, the walking function can fail
func walkHeads(t *rapid.T, c *pbt.Case, hs data.Heads, mh mHeads) {
	var (
		steps = rapid.IntRange(1, len(mh)+1).Draw(t, "stop after")
		ret   = rapid.SampledFrom([]error{data.ErrStopIteration, errTest}).Draw(t, "return")
		want  = mh.keys()
		got   []uint64
	)
	var err = hs.Iterate(func(nonce uint64) error {
		got = append(got, nonce)
		switch {
		case len(got) == steps:
			return ret
		case len(got) > steps:
			t.Fatalf("iteration goes on after stop")
		}
		return nil
	})
	if steps <= len(want) {
		want = want[:steps]
	} else {
		ret = nil
	}
	if ret == data.ErrStopIteration {
		ret = nil
	}
	if err != ret {
		t.Fatalf("Iterate heads: %v, want %v", err, ret)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("Iterate heads: %v, want %v", got, want)
	}
}

// one operation inside a transaction
func idxOp(t *rapid.T, c *pbt.Case, p idxPool, fs data.Feeds, m mFeeds) {
	var x = idxMut{
		pk:    rapid.SampledFrom(p.pks).Draw(t, "pk"),
		nonce: rapid.SampledFrom(p.nonces).Draw(t, "nonce"),
		seq:   rapid.SampledFrom(p.seqs).Draw(t, "seq"),
		op: rapid.SampledFrom([]string{"addfeed", "addfeed", "delfeed", "addhead", "addhead", "addhead", "delhead",
			"set", "set", "set", "set", "set", "set", "bad", "del", "get", "get", "get", "walk", "walk", "walkfeeds", "walkheads", "has", "full"}).Draw(t, "op"),
	}
	c.Note("%s", x)
	var mh, okf = m[x.pk]
	var mr, okh = mh[x.nonce]
	var old, okr = mr[x.seq]

	switch x.op {
	case "addfeed":
		if err := fs.Add(x.pk); err != nil {
			t.Fatalf("Add feed: %v", err)
		}
		if !okf {
			m[x.pk] = make(mHeads)
		}
		return
	case "delfeed":
		var err = fs.Del(x.pk)
		if !okf {
			if err != data.ErrNoSuchFeed {
				t.Fatalf("Del of a missing feed: %v", err)
			}
			return
		}
		if err != nil {
			t.Fatalf("Del feed: %v", err)
		}
		delete(m, x.pk)
		return
	case "walkfeeds":
		walkFeeds(t, c, p, fs, m)
		return
	case "full":
		if err := idxSame(m, fs); err != nil {
			t.Fatalf("inside a transaction, %s: %v", c, err)
		}
		return
	case "has":
		if ok, err := fs.Has(x.pk); ok != okf || err != nil {
			t.Fatalf("Has feed: %v, %v, want %v", ok, err, okf)
		}
	}

	hs, err := fs.Heads(x.pk)
	if !okf {
		if err != data.ErrNoSuchFeed {
			t.Fatalf("Heads of a missing feed: %v", err)
		}
		return
	}
	if err != nil {
		t.Fatalf("Heads: %v", err)
	}

	switch x.op {
	case "walkheads":
		walkHeads(t, c, hs, mh)
		return
	case "addhead":
		rs, err := hs.Add(x.nonce)
		if err != nil {
			t.Fatalf("Add head: %v", err)
		}
		if !okh {
			mh[x.nonce] = make(mRoots)
		}
		if rs.Len() != len(mh[x.nonce]) {
			t.Fatalf("roots of added head: %d, want %d", rs.Len(), len(mh[x.nonce]))
		}
		return
	case "delhead":
		var err = hs.Del(x.nonce)
		if !okh {
			if err != data.ErrNoSuchHead {
				t.Fatalf("Del of a missing head: %v", err)
			}
			return
		}
		if err != nil {
			t.Fatalf("Del head: %v", err)
		}
		delete(mh, x.nonce)
		return
	case "has":
		if ok, err := hs.Has(x.nonce); ok != okh || err != nil {
			t.Fatalf("Has head: %v, %v, want %v", ok, err, okh)
		}
	}

	rs, err := hs.Roots(x.nonce)
	if !okh {
		if err != data.ErrNoSuchHead {
			t.Fatalf("Roots of a missing head: %v", err)
		}
		return
	}
	if err != nil {
		t.Fatalf("Roots: %v", err)
	}

	switch x.op {
	case "set":
		var r = drawRoot(t, x.seq)
		var before = time.Now().UnixNano()
		if err := rs.Set(r); err != nil {
			t.Fatalf("Set root: %v", err)
		}
		if !okr {
			if r.Create < before || r.Access != r.Create || r.Access > time.Now().UnixNano() {
				t.Fatalf("Set of a new root: wrong times")
			}
			mr.set(r, before)
			return
		}
		// touched; the reply has times of the saved one
		c.Class("set existing")
		if r.Create != old.Create {
			t.Fatalf("Set of an existing root: created %d, want %d", r.Create, old.Create)
		}
		if r.Access < old.Access || r.Access > old.hi {
			t.Fatalf("Set of an existing root: wrong access time")
		}
		mr.touch(x.seq, before)
	case "bad":
		if err := rs.Set(drawInvalid(t, x.seq)); err == nil {
			t.Fatalf("Set of an invalid root: missing error")
		}
	case "del":
		if err := rs.Del(x.seq); err != nil {
			t.Fatalf("Del root: %v", err)
		}
		delete(mr, x.seq)
	case "get":
		var before = time.Now().UnixNano()
		r, err := rs.Get(x.seq)
		if !okr {
			if err != data.ErrNotFound {
				t.Fatalf("Get of a missing root: %v", err)
			}
			return
		}
		if err != nil || !same1(*r, old.Root) {
			t.Fatalf("Get root: wrong root, %v", err)
		}
		if !old.same(*r) {
			t.Fatalf("Get root: wrong times, created %d, want %d, accessed %d, want %d .. %d in %s",
				r.Create, old.Create, r.Access, old.Access, old.hi, c)
		}
		mr.touch(x.seq, before)
	case "has":
		if ok, err := rs.Has(x.seq); ok != okr || err != nil {
			t.Fatalf("Has root: %v, %v, want %v", ok, err, okr)
		}
	case "walk":
		walkRoots(t, c, p, rs, mr)
	}
}

func openIdx(t fataler, path string) data.IdxDB {
	idx, err := idxdb.NewDriveIdxDB(path)
	if err != nil {
		t.Fatalf("NewDriveIdxDB: %v", err)
	}
	return idx
}

func idxCheck(t *rapid.T, what string, m mFeeds, idx data.IdxDB) {
	t.Helper()
	var err = idx.Tx(func(fs data.Feeds) error { return idxSame(m, fs) })
	if err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

func TestD03(t *testing.T) {
	pbt.Check(t, "index", 4000, 50000, func(t *rapid.T, c *pbt.Case) {
		var (
			dir = pbt.Scratch()
			p   = drawIdxPool(t)
			m   = make(mFeeds)
			idx data.IdxDB
		)
		defer os.RemoveAll(dir)
		if rapid.IntRange(0, 3).Draw(t, "memory") == 0 {
			idx = idxdb.NewMemeoryDB()
		} else {
			idx = openIdx(t, filepath.Join(dir, "i.db"))
		}
		defer idx.Close()
		pbt.Within(hang, "index history", func() {
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "txs"); i < n; i++ {
				c.Note("tx")
				var err = idx.Tx(func(fs data.Feeds) error {
					for j, n := 0, rapid.IntRange(1, 14).Draw(t, "ops"); j < n; j++ {
						idxOp(t, c, p, fs, m)
					}
					return nil
				})
				if err != nil {
					t.Fatalf("Tx: %v", err)
				}
				idxCheck(t, "after "+c.String(), m, idx)
			}
		})
	})
}

func TestD04(t *testing.T) {
	pbt.Check(t, "tx", 2000, 25000, func(t *rapid.T, c *pbt.Case) {
		var (
			dir  = pbt.Scratch()
			path = filepath.Join(dir, "i.db")
			p    = drawIdxPool(t)
			m    = make(mFeeds)
			cr   = &crash{path: path}
		)
		defer os.RemoveAll(dir)
		cr.install()
		defer uninstall()
		var crashed = func(what string, b []byte, ms ...mFeeds) {
			var cp = filepath.Join(dir, "crash.db")
			pbt.Infra(os.WriteFile(cp, b, 0644))
			defer os.Remove(cp)
			var cs, err = idxdb.NewDriveIdxDB(cp)
			if err != nil {
				t.Fatalf("%s: a process crashed, the index can't be opened: %v", what, err)
			}
			defer cs.Close()
			for _, m := range ms {
				if err = cs.Tx(func(fs data.Feeds) error { return idxSame(m, fs) }); err == nil {
					return
				}
			}
			t.Fatalf("%s: a process crashed, reopened: %v", what, err)
		}
		var idx = openIdx(t, path)
		defer func() { idx.Close() }()
		for _, s := range cr.take() {
			crashed("creating", s, m)
		}
		for i, n := 0, rapid.IntRange(1, 6).Draw(t, "txs"); i < n; i++ {
			var (
				next = m.clone()
				how  = rapid.SampledFrom([]string{"ok", "ok", "ok", "error", "panic", "disk", "reopen"}).Draw(t, "how")
			)
			c.Note("tx %s", how)
			if how == "reopen" {
				if err := idx.Close(); err != nil {
					t.Fatalf("Close: %v", err)
				}
				idx = openIdx(t, path)
				idxCheck(t, "reopened after "+c.String(), m, idx)
				cr.take()
				continue
			}
			if how == "disk" {
				cr.fail = 1
			}
			var err error
			func() {
				if how == "panic" {
					defer func() {
						if x := recover(); x != nil && x != "test panic" {
							panic(x)
						}
					}()
				}
				err = idx.Tx(func(fs data.Feeds) error {
					for j, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); j < n; j++ {
						idxOp(t, c, p, fs, next)
					}
					switch how {
					case "error":
						return errTest
					case "panic":
						panic("test panic")
					}
					return nil
				})
			}()
			cr.fail = 0
			var before = m
			switch how {
			case "ok":
				if err != nil {
					t.Fatalf("Tx: %v", err)
				}
				m = next
			case "error", "disk":
				c.NonTrivial()
				c.Class("failed transaction")
				if err != errTest {
					t.Fatalf("an error of the transaction is lost: %v", err)
				}
			}
			for _, s := range cr.take() {
				crashed("during the last of "+c.String(), s, before, m)
			}
			b, err := os.ReadFile(path)
			pbt.Infra(err)
			crashed("after "+c.String(), b, m)
			idxCheck(t, "after "+c.String(), m, idx)
			cr.take()
		}
		if err := idx.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		idx = openIdx(t, path)
		idxCheck(t, "reopened after "+c.String(), m, idx)
	})
}

// times of creation and access are kept too, records survive encoding
func TestD04Codec(t *testing.T) {
	pbt.Check(t, "codec", 4000, 60000, func(t *rapid.T, c *pbt.Case) {
		var u64 = rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}))
		var r = data.Root{
			Create: int64(u64.Draw(t, "create")),
			Access: int64(u64.Draw(t, "access")),
			Time:   int64(u64.Draw(t, "time")),
			Seq:    u64.Draw(t, "seq"),
		}
		copy(r.Prev[:], rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "prev"))
		copy(r.Hash[:], rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "hash"))
		copy(r.Sig[:], rapid.SliceOfN(rapid.Byte(), len(r.Sig), len(r.Sig)).Draw(t, "sig"))
		c.Note("%v", r)
		c.NonTrivial()
		var b = r.Encode()
		var g data.Root
		if err := g.Decode(b); err != nil {
			t.Fatalf("Decode: %v", err)
		}
		if g != r {
			t.Fatalf("decoded %v, want %v", g, r)
		}
		var cut = rapid.IntRange(0, len(b)-1).Draw(t, "cut")
		if err := new(data.Root).Decode(b[:cut]); err == nil {
			t.Fatalf("missing error: %d bytes of %d", cut, len(b))
		}
		// validation
		var bad = r.Hash == cipher.SHA256{} || r.Sig == cipher.Sig{} || r.Time == 0 ||
			(r.Seq == 0) != (r.Prev == cipher.SHA256{})
		if err := r.Validate(); (err != nil) != bad {
			t.Fatalf("Validate(%v): %v", r, err)
		}
	})
}

// a process can die right after the database file is initialised
func TestD02Created(t *testing.T) {
	pbt.Enumerate("interrupted creating", func(c *pbt.Case) {
		var dir = pbt.Scratch()
		defer os.RemoveAll(dir)
		c.Note("empty file and empty database")
		c.NonTrivial()
		for _, empty := range []bool{true, false} {
			for i, open := range []func(string) error{
				func(p string) error {
					ds, err := cxds.NewDriveCXDS(p)
					if err == nil {
						ds.Close()
					}
					return err
				},
				func(p string) error {
					ds, err := idxdb.NewDriveIdxDB(p)
					if err == nil {
						ds.Close()
					}
					return err
				}} {
				var p = filepath.Join(dir, fmt.Sprint(empty, i))
				if empty {
					pbt.Infra(os.WriteFile(p, nil, 0644))
				} else {
					b, err := bolt.Open(p, 0644, nil)
					pbt.Infra(err)
					pbt.Infra(b.Close())
				}
				for j := 0; j < 2; j++ {
					if err := open(p); err != nil {
						t.Errorf("creating was interrupted (%v, %d), can't open: %v", empty, i, err)
					}
				}
			}
		}
	})
}
