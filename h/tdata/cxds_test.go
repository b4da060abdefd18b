package tdata

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"

	"github.com/boltdb/bolt"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"

	"verif/h/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errTest = errors.New("test error")

// reference model of the objects store

type obj struct {
	val []byte
	rc  uint32
}

type objs map[cipher.SHA256]obj

func (o objs) clone() (c objs) {
	c = make(objs, len(o))
	for k, v := range o {
		c[k] = v
	}
	return
}

func (o objs) totals() (aa, au, va, vu int) {
	for _, x := range o {
		aa++
		va += len(x.val)
		if x.rc > 0 {
			au++
			vu += len(x.val)
		}
	}
	return
}

func (o objs) String() string {
	var ks []string
	for k, v := range o {
		ks = append(ks, fmt.Sprintf("%s:%d/%d", k.Hex()[:6], v.rc, len(v.val)))
	}
	sort.Strings(ks)
	return fmt.Sprint(ks)
}

func same(a, b objs) error {
	for k, x := range a {
		y, ok := b[k]
		if !ok {
			return fmt.Errorf("missing object %s", k.Hex()[:8])
		}
		if x.rc != y.rc {
			return fmt.Errorf("object %s: references counter %d, want %d", k.Hex()[:8], y.rc, x.rc)
		}
		if !bytes.Equal(x.val, y.val) {
			return fmt.Errorf("object %s: wrong value", k.Hex()[:8])
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Errorf("unexpected object %s", k.Hex()[:8])
		}
	}
	return nil
}

// content of the store by iterating
func content(ds data.CXDS) (o objs, err error) {
	o = make(objs)
	err = ds.Iterate(func(k cipher.SHA256, rc uint32, val []byte) error {
		if _, ok := o[k]; ok {
			return fmt.Errorf("object %s is visited twice", k.Hex()[:8])
		}
		o[k] = obj{append([]byte{}, val...), rc}
		return nil
	})
	return
}

func sameTotals(m objs, ds data.CXDS) error {
	var (
		aa, au, va, vu = m.totals()
		ga, gu         = ds.Amount()
		wa, wu         = ds.Volume()
	)
	if aa != ga || au != gu {
		return fmt.Errorf("Amount: %d, %d, want %d, %d", ga, gu, aa, au)
	}
	if va != wa || vu != wu {
		return fmt.Errorf("Volume: %d, %d, want %d, %d", wa, wu, va, vu)
	}
	return nil
}

func check(t *rapid.T, what string, m objs, ds data.CXDS) {
	t.Helper()
	got, err := content(ds)
	if err != nil {
		t.Fatalf("%s: Iterate: %v", what, err)
	}
	if err = same(m, got); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
	if err = sameTotals(m, ds); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

// keys and values of a case
type pool struct {
	keys []cipher.SHA256
	vals map[cipher.SHA256][]byte
}

func drawPool(t *rapid.T) (p pool) {
	p.vals = make(map[cipher.SHA256][]byte)
	var n = rapid.IntRange(1, 7).Draw(t, "keys")
	for i := 0; i < n; i++ {
		var (
			l   = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 31, 32, 33, 100, 1000, 5000, 9000}).Draw(t, "len")
			b   = rapid.Byte().Draw(t, "fill")
			val = bytes.Repeat([]byte{b}, l)
		)
		val[l-1] = byte(i)
		var key = cipher.SumSHA256(val)
		switch rapid.IntRange(0, 11).Draw(t, "key kind") {
		case 0:
			for j := range key {
				key[j] = 0xff
			}
			key[31] -= byte(rapid.IntRange(0, 2).Draw(t, "last"))
		case 1:
			for j := range key {
				key[j] = 0
			}
			key[31] += byte(rapid.IntRange(0, 2).Draw(t, "last"))
		case 2:
			for j := 1; j < len(key); j++ {
				key[j] = 0xff
			}
			key[0] = 7
		}
		if _, ok := p.vals[key]; ok {
			continue
		}
		p.keys = append(p.keys, key)
		p.vals[key] = val
	}
	return
}

func drawInc(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "inc kind") {
	case 0:
		return rapid.IntRange(-1<<24, 1<<24).Draw(t, "inc")
	case 1:
		return 0
	}
	return rapid.IntRange(-3, 3).Draw(t, "inc")
}

func (o obj) inc(inc int) obj {
	var rc = int64(o.rc) + int64(inc)
	if rc < 0 {
		rc = 0
	}
	o.rc = uint32(rc)
	return o
}

// one random operation on the store and on the model
func cxdsOp(t *rapid.T, c *pbt.Case, p pool, m objs, ds data.CXDS, drive bool) {
	var (
		key   = rapid.SampledFrom(p.keys).Draw(t, "key")
		val   = p.vals[key]
		mo, y = m[key]
		sk    = key.Hex()[:4]
	)
	switch op := rapid.SampledFrom([]string{"get", "get", "set", "set", "set", "inc", "inc", "del",
		"iter", "iterdel", "badset"}).Draw(t, "op"); op {

	case "get":
		var inc = drawInc(t)
		c.Note("get %s %d", sk, inc)
		gv, rc, err := ds.Get(key, inc)
		if !y {
			if err != data.ErrNotFound {
				t.Fatalf("Get of a missing: %v, want not found", err)
			}
			return
		}
		mo = mo.inc(inc)
		m[key] = mo
		if err != nil {
			t.Fatalf("Get: %v", err)
		}
		if rc != mo.rc {
			t.Fatalf("Get: rc %d, want %d", rc, mo.rc)
		}
		if !bytes.Equal(gv, val) {
			t.Fatalf("Get: wrong value")
		}

	case "set":
		var inc = drawInc(t)
		if inc <= 0 {
			inc = 1 - inc
		}
		c.Note("set %s %d", sk, inc)
		rc, err := ds.Set(key, append([]byte{}, val...), inc)
		if err != nil {
			t.Fatalf("Set: %v", err)
		}
		if !y {
			mo.val = val
		} else {
			c.NonTrivial()
		}
		mo = mo.inc(inc)
		m[key] = mo
		if rc != mo.rc {
			t.Fatalf("Set with inc %d (existing: %v): rc %d, want %d", inc, y, rc, mo.rc)
		}

	case "badset":
		c.Note("badset %s", sk)
		if rapid.Bool().Draw(t, "empty value") {
			if _, err := ds.Set(key, nil, 1); err != cxds.ErrEmptyValue {
				t.Fatalf("Set of an empty value: %v", err)
			}
			return
		}
		var inc = rapid.IntRange(-2, 0).Draw(t, "inc")
		func() {
			defer func() {
				if recover() == nil {
					t.Fatalf("Set with inc %d: missing panic", inc)
				}
			}()
			ds.Set(key, val, inc)
		}()

	case "inc":
		var inc = drawInc(t)
		c.Note("inc %s %d", sk, inc)
		rc, err := ds.Inc(key, inc)
		if !y {
			if err != data.ErrNotFound {
				t.Fatalf("Inc of a missing: %v, want not found", err)
			}
			return
		}
		mo = mo.inc(inc)
		m[key] = mo
		if err != nil {
			t.Fatalf("Inc: %v", err)
		}
		if rc != mo.rc {
			t.Fatalf("Inc: rc %d, want %d", rc, mo.rc)
		}

	case "del":
		c.Note("del %s", sk)
		if err := ds.Del(key); err != nil {
			t.Fatalf("Del: %v", err)
		}
		if y {
			c.Class("delete existing")
		}
		delete(m, key)

	case "iter":
		var stop = rapid.IntRange(0, len(m)+1).Draw(t, "stop after")
		var ret = rapid.SampledFrom([]error{data.ErrStopIteration, errTest}).Draw(t, "return")
		c.Note("iter %d %v", stop, ret)
		var seen = make(objs)
		var called int
		pbt.Within(hang, "Iterate", func() {
			err := ds.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
				called++
				seen[k] = obj{append([]byte{}, v...), rc}
				if called == stop {
					return ret
				}
				return nil
			})
			wantIterErr(t, err, called, stop, len(m), ret)
		})
		if len(seen) != called {
			t.Fatalf("Iterate visits an object twice")
		}
		for k, o := range seen {
			if mo, ok := m[k]; !ok || mo.rc != o.rc || !bytes.Equal(mo.val, o.val) {
				t.Fatalf("Iterate: wrong object %s", k.Hex()[:8])
			}
		}

	case "iterdel":
		var stop = rapid.IntRange(0, len(m)+1).Draw(t, "stop after")
		var ret = rapid.SampledFrom([]error{data.ErrStopIteration, errTest}).Draw(t, "return")
		var mask = rapid.SliceOfN(rapid.Bool(), len(p.keys), len(p.keys)).Draw(t, "delete")
		var del = make(map[cipher.SHA256]bool)
		for i, k := range p.keys {
			del[k] = mask[i]
		}
		c.Note("iterdel %d %v %v", stop, ret, mask)
		var seen = make(map[cipher.SHA256]bool)
		var called int
		var after = m.clone()
		var n = len(m)
		pbt.Within(hang, "IterateDel", func() {
			err := ds.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) {
				called++
				if seen[k] {
					t.Fatalf("IterateDel visits an object twice")
				}
				seen[k] = true
				if mo, ok := m[k]; !ok || mo.rc != rc || !bytes.Equal(mo.val, v) {
					t.Fatalf("IterateDel: wrong object %s", k.Hex()[:8])
				}
				if called == stop {
					return false, ret
				}
				if del[k] {
					delete(after, k)
				}
				return del[k], nil
			})
			wantIterErr(t, err, called, stop, n, ret)
			if err == nil {
				replace(m, after)
				return
			}
			c.Class("failed iterate-delete")
			// a failed one: either everything or nothing
			got, err := content(ds)
			if err != nil {
				t.Fatal(err)
			}
			if same(m, got) != nil {
				if err = same(after, got); err != nil {
					t.Fatalf("after failed IterateDel: %v", err)
				}
				if drive {
					t.Fatalf("failed IterateDel leaves a trace")
				}
				replace(m, after)
			}
		})
	}
}

func replace(m, by objs) {
	for k := range m {
		delete(m, k)
	}
	for k, v := range by {
		m[k] = v
	}
}

func wantIterErr(t *rapid.T, err error, called, stop, n int, ret error) {
	t.Helper()
	var stopped = stop >= 1 && stop <= n
	switch {
	case stopped && called != stop:
		t.Fatalf("iteration called %d times, want stop after %d", called, stop)
	case !stopped && called != n:
		t.Fatalf("iteration called %d times, want %d", called, n)
	case stopped && ret == errTest && err != errTest:
		t.Fatalf("iteration returns %v, want %v", err, errTest)
	case (!stopped || ret == data.ErrStopIteration) && err != nil:
		t.Fatalf("iteration returns %v", err)
	}
}

func openDrive(t fataler, path string) data.CXDS {
	ds, err := cxds.NewDriveCXDS(path)
	if err != nil {
		t.Fatalf("NewDriveCXDS: %v", err)
	}
	return ds
}

type fataler interface {
	Fatalf(string, ...interface{})
}

func testStore(t *testing.T, drive bool) {
	var name = "memory"
	var quick, thorough = 8000, 100000
	if drive {
		name = "drive"
		quick, thorough = 2500, 30000
	}
	pbt.Check(t, name, quick, thorough, func(t *rapid.T, c *pbt.Case) {
		var (
			p  = drawPool(t)
			m  = make(objs)
			n  = rapid.IntRange(1, 30).Draw(t, "ops")
			ds data.CXDS
		)
		if drive {
			var dir = pbt.Scratch()
			defer os.RemoveAll(dir)
			ds = openDrive(t, filepath.Join(dir, "c.db"))
		} else {
			ds = cxds.NewMemoryCXDS()
		}
		defer ds.Close()
		for i := 0; i < n; i++ {
			cxdsOp(t, c, p, m, ds, drive)
			check(t, "after "+c.String(), m, ds)
		}
	})
}

func TestD01Memory(t *testing.T) { testStore(t, false) }
func TestD01Drive(t *testing.T)  { testStore(t, true) }

// the same history for both implementations at once, operations from many
// goroutines: the outcome is the sum of increments
func TestD01Concurrent(t *testing.T) {
	pbt.Check(t, "concurrent", 30, 400, func(t *rapid.T, c *pbt.Case) {
		var (
			p     = drawPool(t)
			drive = rapid.Bool().Draw(t, "drive")
			g     = rapid.IntRange(2, 6).Draw(t, "goroutines")
			ds    data.CXDS
			plan  = make([][][2]int, g)
			m     = make(objs)
			kill  = rapid.SampledFrom(p.keys).Draw(t, "kill")
		)
		if drive {
			var dir = pbt.Scratch()
			defer os.RemoveAll(dir)
			ds = openDrive(t, filepath.Join(dir, "c.db"))
		} else {
			ds = cxds.NewMemoryCXDS()
		}
		defer ds.Close()
		// big enough to be never clamped by zero
		for _, k := range p.keys {
			ds.Set(k, p.vals[k], 1000)
			m[k] = obj{p.vals[k], uint32(1000)}
		}
		if !drive {
			// (drive sets to one on creating if it ignores inc; D01Drive finds it)
		}
		for i := range plan {
			var n = rapid.IntRange(1, 12).Draw(t, "n")
			for j := 0; j < n; j++ {
				var k = rapid.IntRange(0, len(p.keys)-1).Draw(t, "k")
				var inc = rapid.IntRange(-3, 3).Draw(t, "inc")
				plan[i] = append(plan[i], [2]int{k, inc})
				m[p.keys[k]] = m[p.keys[k]].inc(inc)
			}
		}
		c.Note("%v %v", drive, plan)
		c.NonTrivial()
		var wg sync.WaitGroup
		var errs = make(chan error, 1000)
		for i := range plan {
			wg.Add(1)
			go func(pl [][2]int) {
				defer wg.Done()
				for j, x := range pl {
					var k, inc = p.keys[x[0]], x[1]
					var err error
					switch {
					case inc > 0 && j%3 == 0:
						_, err = ds.Set(k, p.vals[k], inc)
					case j%3 == 1:
						var v []byte
						if v, _, err = ds.Get(k, inc); err == nil && !bytes.Equal(v, p.vals[k]) {
							err = errors.New("wrong value")
						}
					default:
						_, err = ds.Inc(k, inc)
					}
					if err != nil {
						errs <- err
					}
					if j%4 == 0 {
						ds.Amount()
						ds.Volume()
					}
					if j%5 == 0 {
						if _, err = content(ds); err != nil {
							errs <- err
						}
					}
				}
			}(plan[i])
		}
		pbt.Within(hang, "concurrent operations", wg.Wait)
		select {
		case err := <-errs:
			t.Fatal(err)
		default:
		}
		check(t, "concurrent", m, ds)
		// all goroutines delete the same object
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); ds.Del(kill) }()
		}
		wg.Wait()
		delete(m, kill)
		check(t, "concurrent delete", m, ds)
	})
}

// D02

// every commit is a crash point: the copy of the file taken at the point is
// what a process that dies there leaves
type crash struct {
	mx    sync.Mutex
	snaps [][]byte
	path  string
	fail  int // fail that commit
}

func (cr *crash) install() {
	bolt.AfterCommit = func(p string) {
		cr.mx.Lock()
		defer cr.mx.Unlock()
		if p != cr.path {
			return
		}
		b, err := os.ReadFile(p)
		pbt.Infra(err)
		cr.snaps = append(cr.snaps, b)
	}
	bolt.FailCommit = func(p string) error {
		cr.mx.Lock()
		defer cr.mx.Unlock()
		if p != cr.path || cr.fail == 0 {
			return nil
		}
		if cr.fail--; cr.fail == 0 {
			return errTest
		}
		return nil
	}
}

func (cr *crash) take() (s [][]byte) {
	cr.mx.Lock()
	defer cr.mx.Unlock()
	s, cr.snaps = cr.snaps, nil
	return
}

func uninstall() { bolt.AfterCommit, bolt.FailCommit = nil, nil }

func TestD02(t *testing.T) {
	pbt.Check(t, "crash", 1500, 20000, func(t *rapid.T, c *pbt.Case) {
		var dir = pbt.Scratch()
		defer os.RemoveAll(dir)
		var (
			p    = drawPool(t)
			m    = make(objs)
			n    = rapid.IntRange(1, 14).Draw(t, "ops")
			path = filepath.Join(dir, "c.db")
			cr   = &crash{path: path}
			ds   data.CXDS
		)
		cr.install()
		defer uninstall()
		// reopen a crashed store
		var crashed = func(what string, b []byte, ms ...objs) {
			var cp = filepath.Join(dir, "crash.db")
			pbt.Infra(os.WriteFile(cp, b, 0644))
			defer os.Remove(cp)
			var cs, err = cxds.NewDriveCXDS(cp)
			if err != nil {
				t.Fatalf("%s: a process crashed, the store can't be opened: %v", what, err)
			}
			defer cs.Close()
			got, err := content(cs)
			if err != nil {
				t.Fatal(err)
			}
			for _, m := range ms {
				if err = same(m, got); err == nil {
					return
				}
			}
			t.Fatalf("%s: a process crashed, reopened: %v", what, err)
		}
		ds = openDrive(t, path)
		for _, s := range cr.take() {
			crashed("creating", s, m)
		}
		for i := 0; i < n; i++ {
			var before = m.clone()
			switch rapid.IntRange(0, 5).Draw(t, "what") {
			case 0: // orderly closing
				c.Note("reopen")
				if len(m) > 0 {
					c.NonTrivial()
				}
				if err := ds.Close(); err != nil {
					t.Fatalf("Close: %v", err)
				}
				ds = openDrive(t, path)
				check(t, "reopened after "+c.String(), m, ds)
			case 1: // failing operation
				var key = rapid.SampledFrom(p.keys).Draw(t, "key")
				cr.fail = 1
				var err error
				switch op := rapid.SampledFrom([]string{"set", "inc", "get", "del", "iterdel"}).Draw(t, "failing"); op {
				case "set":
					_, err = ds.Set(key, p.vals[key], 2)
				case "inc":
					if _, err = ds.Inc(key, 1); err == data.ErrNotFound {
						err = errTest
					}
				case "get":
					if _, _, err = ds.Get(key, -1); err == data.ErrNotFound {
						err = errTest
					}
				case "del":
					err = ds.Del(key)
				case "iterdel":
					err = ds.IterateDel(func(cipher.SHA256, uint32, []byte) (bool, error) { return true, nil })
				}
				cr.fail = 0
				c.Note("failing")
				c.Class("failed commit")
				if err != errTest {
					t.Fatalf("an error of the disk is lost: %v", err)
				}
			default:
				cxdsOp(t, c, p, m, ds, true)
			}
			check(t, "after "+c.String(), m, ds)
			for _, s := range cr.take() {
				crashed("during the last of "+c.String(), s, before, m)
			}
			// right now
			b, err := os.ReadFile(path)
			pbt.Infra(err)
			crashed("after "+c.String(), b, m)
		}
		if err := ds.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		for _, s := range cr.take() {
			crashed("closing", s, m)
		}
		ds = openDrive(t, path)
		check(t, "closed after "+c.String(), m, ds)
		ds.Close()
	})
}
