package tsky

import (
	"bytes"
	"fmt"
	"sort"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// model of a container as key-value store with holds of fillers
type cacheModel struct {
	rc    map[cipher.SHA256]int // hard
	val   map[cipher.SHA256][]byte
	holds map[cipher.SHA256]int
	wants map[cipher.SHA256]map[int]int // key -> channel -> inc
	stale map[cipher.SHA256]bool        // held when removed from the cache
}

func (m *cacheModel) inc(key cipher.SHA256, inc int) int {
	var n = m.rc[key] + inc
	if n < 0 {
		n = 0
	}
	m.rc[key] = n
	return n
}

func pay(i int) []byte {
	var sizes = []int{1, 3, 9, 9, 20, 45, 60, 120, 5000}
	return bytes.Repeat([]byte{byte(i)}, sizes[i%len(sizes)])
}

func TestS04(t *testing.T) {
	pbt.Check(t, "S04", 12000, 150000, func(t *rapid.T, c *pbt.Case) {
		var conf = skyobject.NewConfig()
		conf.DataDir = ""
		var cname = drawCache(t, conf)
		if rapid.IntRange(0, 9).Draw(t, "limit") == 0 {
			conf.MaxObjectSize = 1024
		}
		var cx = data.CXDS(keepCXDS{CXDS: cxds.NewMemoryCXDS()})
		conf.DB = data.NewDB(cx, blankIdx())
		var co, err = skyobject.NewContainer(conf)
		if err != nil {
			t.Fatal(err)
		}
		defer co.Close()
		var fill = rapid.Bool().Draw(t, "with fillers")
		c.Note("%s cache %d/%d/%d, policy %s, clean %.1f", cname, conf.CacheMaxAmount, conf.CacheMaxVolume, conf.CacheMaxItemSize, conf.CachePolicy, conf.CacheCleaning)
		c.Class(cname)

		var m = cacheModel{rc: map[cipher.SHA256]int{}, val: map[cipher.SHA256][]byte{}, holds: map[cipher.SHA256]int{}, wants: map[cipher.SHA256]map[int]int{}}
		var keys []cipher.SHA256
		var vals [][]byte
		for i, n := 0, rapid.IntRange(2, 16).Draw(t, "keys"); i < n; i++ {
			vals = append(vals, pay(i))
			keys = append(keys, hashOf(pay(i)))
		}
		type wanter struct {
			gc   chan skyobject.Object
			want map[cipher.SHA256]int // incs of objects that are not received
			got  map[cipher.SHA256]int // incs of received ones
		}
		var ws []*wanter
		for i := 0; fill && i < 3; i++ {
			ws = append(ws, &wanter{make(chan skyobject.Object, 100), map[cipher.SHA256]int{}, map[cipher.SHA256]int{}})
		}
		var expect = func(w *wanter, o skyobject.Object) {
			select {
			case g := <-w.gc:
				if g.Key != o.Key || g.RC != o.RC || !bytes.Equal(g.Val, o.Val) || (g.Err != nil) != (o.Err != nil) {
					t.Fatalf("wanter receives object %s with rc %d, %d bytes, error %v; want %s, %d, %d, %v",
						short(g.Key), g.RC, len(g.Val), g.Err, short(o.Key), o.RC, len(o.Val), o.Err)
				}
			default:
				t.Fatalf("wanter does not receive object %s", short(o.Key))
			}
		}
		var received = func(key cipher.SHA256, val []byte) { // objects somebody waits for
			for _, w := range ws {
				if inc, ok := w.want[key]; ok {
					delete(w.want, key)
					if len(val) > conf.MaxObjectSize {
						expect(w, skyobject.Object{Key: key, Err: data.ErrNotFound})
						continue
					}
					expect(w, skyobject.Object{Key: key, Val: val, RC: m.rc[key]})
					if inc > 0 {
						w.got[key] += inc
						m.holds[key] += inc
					}
				}
			}
		}
		var wanted = func(key cipher.SHA256) bool {
			for _, w := range ws {
				if _, ok := w.want[key]; ok {
					return true
				}
			}
			return false
		}
		var check = func(op string, key cipher.SHA256, rc int, err error) {
			if _, ok := m.val[key]; !ok {
				if err != data.ErrNotFound || rc != 0 {
					t.Fatalf("%s of missing object: %d, %v", op, rc, err)
				}
				return
			}
			if err != nil {
				t.Fatalf("%s: %v", op, err)
			}
			if rc != m.rc[key] {
				t.Fatalf("%s of %s returns rc %d, want %d (held %d times)", op, short(key), rc, m.rc[key], m.holds[key])
			}
		}
		var drawInc = func(key cipher.SHA256) (inc int) {
			inc = rapid.SampledFrom([]int{0, 0, 0, 1, 1, -1, -1, 2, -2, 5}).Draw(t, "inc")
			if m.holds[key] > 0 && inc < -m.rc[key] {
				inc = -m.rc[key] // nobody may take what is held
			}
			return
		}

		var ops = rapid.IntRange(1, 40).Draw(t, "operations")
		for ; ops > 0; ops-- {
			var i = rapid.IntRange(0, len(keys)-1).Draw(t, "key")
			var key, val = keys[i], vals[i]
			var max = 9
			if fill {
				max = 16
			}
			switch op := rapid.IntRange(0, max).Draw(t, "op"); op {
			case 0, 1, 2: // Set
				var inc = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "inc")
				c.Note("set %d +%d", i, inc)
				var rc, err = co.Set(key, val, inc)
				if len(val) > conf.MaxObjectSize {
					if _, ok := err.(*skyobject.ObjectIsTooLargeError); !ok || rc != 0 {
						t.Fatalf("Set of too large object: %d, %v", rc, err)
					}
					received(key, val)
					break
				}
				m.val[key] = val
				m.inc(key, inc)
				check("Set", key, rc, err)
				received(key, val)
			case 3, 4, 5: // Get
				var inc = drawInc(key)
				c.Note("get %d %+d", i, inc)
				if _, ok := m.val[key]; ok {
					m.inc(key, inc)
				}
				var got, rc, err = co.Get(key, inc)
				check("Get", key, rc, err)
				if err == nil && !bytes.Equal(got, val) {
					t.Fatalf("Get returns %d bytes, want %d", len(got), len(val))
				}
			case 6, 7: // Inc
				var inc = drawInc(key)
				c.Note("inc %d %+d", i, inc)
				if _, ok := m.val[key]; ok {
					m.inc(key, inc)
				}
				var rc, err = co.Inc(key, inc)
				check("Inc", key, rc, err)
			case 8: // as a cleaner of the database does
				c.Note("clean %d", i)
				if _, ok := m.val[key]; ok && m.rc[key] == 0 && m.holds[key] == 0 {
					if co.IsCached(key) {
						t.Fatalf("ownerless %s is cached: it can not be removed", short(key))
					}
					if err := cx.Del(key); err != nil {
						t.Fatal(err)
					}
					delete(m.val, key)
					delete(m.rc, key)
				}
			case 9: // reopen
				if rapid.IntRange(0, 2).Draw(t, "reopen") > 0 {
					break
				}
				c.Note("reopen")
				pbt.Within(60*time.Second, "Close", func() { err = co.Close() })
				if err != nil {
					t.Fatalf("Close: %v", err)
				}
				for k := range m.holds {
					delete(m.holds, k)
				}
				for _, w := range ws {
					w.got, w.want = map[cipher.SHA256]int{}, map[cipher.SHA256]int{}
				}
				compareStore(t, &m, cx, "after closing")
				if co, err = skyobject.NewContainer(conf); err != nil {
					t.Fatal(err)
				}
			case 10, 11: // Want
				var wi = rapid.IntRange(0, len(ws)-1).Draw(t, "wanter")
				var w = ws[wi]
				var inc = rapid.SampledFrom([]int{1, 1, 1, 0, 2}).Draw(t, "inc")
				c.Note("want %d by %d +%d", i, wi, inc)
				if err := co.Want(key, w.gc, inc); err != nil {
					t.Fatalf("Want: %v", err)
				}
				if _, ok := m.val[key]; ok {
					expect(w, skyobject.Object{Key: key, Val: val, RC: m.rc[key]})
					if inc > 0 {
						m.holds[key] += inc
						w.got[key] += inc
					}
				} else {
					w.want[key] += inc
				}
			case 12: // SetWanted
				c.Note("set wanted %d", i)
				var was = wanted(key)
				var rc, err = co.SetWanted(key, val)
				switch {
				case !was:
					if rc != 0 || err != nil {
						t.Fatalf("SetWanted of object nobody wants: %d, %v", rc, err)
					}
				case len(val) > conf.MaxObjectSize:
					if _, ok := err.(*skyobject.ObjectIsTooLargeError); !ok {
						t.Fatalf("SetWanted of too large object: %v", err)
					}
					received(key, val)
				default:
					var incs int
					for _, w := range ws {
						incs += w.want[key]
					}
					if incs == 0 { // nobody is going to own it
						if rc != 0 || err != nil {
							t.Fatalf("SetWanted: %d, %v", rc, err)
						}
						received(key, val)
						break
					}
					m.val[key] = val
					m.inc(key, 0)
					check("SetWanted", key, rc, err)
					received(key, val)
				}
			case 13: // Unwant
				var w = rapid.SampledFrom(ws).Draw(t, "wanter")
				c.Note("unwant %d", i)
				co.Unwant(key, w.gc)
				delete(w.want, key)
			case 14, 15, 16: // the end of filling
				var w = rapid.SampledFrom(ws).Draw(t, "wanter")
				var apply = rapid.Bool().Draw(t, "apply")
				c.Note("finc all %v", apply)
				var ks []cipher.SHA256
				for _, k := range keys {
					if w.got[k] > 0 {
						ks = append(ks, k)
					}
				}
				for _, k := range ks {
					var n = w.got[k]
					if !apply {
						n = -n
					}
					if err := co.Finc(k, n); err != nil {
						t.Fatalf("Finc: %v", err)
					}
					m.holds[k] -= w.got[k]
					if apply {
						m.rc[k] += w.got[k]
					}
				}
				w.got = map[cipher.SHA256]int{}
			}
			for _, w := range ws {
				if len(w.gc) > 0 {
					t.Fatalf("wanter receives unexpected object %v", <-w.gc)
				}
			}
			limits(t, &m, co, conf, keys, vals, wanted)
			if m.rc[key] > 1 {
				c.NonTrivial()
			}
		}
		for i, key := range keys {
			var got, rc, err = co.Get(key, 0)
			check("Get", key, rc, err)
			if err == nil && !bytes.Equal(got, vals[i]) {
				t.Fatal("wrong value")
			}
		}
		pbt.Within(60*time.Second, "Close", func() { err = co.Close() })
		if err != nil {
			t.Fatalf("Close: %v", err)
		}
		compareStore(t, &m, cx, "after closing")
	})
}

func compareStore(t *rapid.T, m *cacheModel, cx data.CXDS, when string) {
	t.Helper()
	var cont = content(t, cx)
	for key, val := range m.val {
		var x, ok = cont[key]
		if !ok {
			t.Fatalf("%s object %s is not in the store", when, short(key))
		}
		if x.val != string(val) || int(x.rc) != m.rc[key] {
			t.Fatalf("%s object %s has rc %d and %d bytes, want %d and %d", when, short(key), x.rc, len(x.val), m.rc[key], len(val))
		}
		delete(cont, key)
	}
	for key := range cont {
		t.Fatalf("%s there is unknown object %s", when, short(key))
	}
}

// the cache does not exceed its limits
func limits(t *rapid.T, m *cacheModel, co *skyobject.Container, conf *skyobject.Config, keys []cipher.SHA256, vals [][]byte, wanted func(cipher.SHA256) bool) {
	t.Helper()
	var amount, volume, famount, fvolume int
	for i, key := range keys {
		switch {
		case wanted(key):
			if !co.IsCached(key) {
				t.Fatalf("wanted %s is not reported by IsCached: it can be removed", short(key))
			}
		case m.holds[key] > 0:
			if !co.IsCached(key) {
				t.Fatalf("held %s is not reported by IsCached: it can be removed", short(key))
			}
			famount++
			fvolume += len(vals[i])
		case co.IsCached(key):
			amount++
			volume += len(vals[i])
		}
	}
	var a, v = conf.CacheMaxAmount, conf.CacheMaxVolume
	if a == 0 || v == 0 {
		a, v = 0, 0
	}
	if amount > a || volume > v {
		t.Fatalf("there are %d objects, %d bytes in the cache, but the limits are %d and %d", amount, volume, a, v)
	}
	var s = co.Stat()
	var sa, sv = int(s.CacheObjects.Amount), int(s.CacheObjects.Volume)
	if sa < amount || sa > amount+famount || sv < volume || sv > volume+fvolume {
		t.Fatalf("statistics say there are %d objects, %d bytes in the cache, but there are %d, %d (and %d, %d that are filling)",
			sa, sv, amount, volume, famount, fvolume)
	}
	if sa > a || sv > v {
		t.Fatalf("there are %d objects, %d bytes in the cache (statistics), but the limits are %d and %d", sa, sv, a, v)
	}
}

// cache of registries
func TestS04Registries(t *testing.T) {
	pbt.Check(t, "S04 registries", 1500, 20000, func(t *rapid.T, c *pbt.Case) {
		var conf = skyobject.NewConfig()
		conf.DataDir = ""
		var cname = drawCache(t, conf)
		var cx = data.CXDS(keepCXDS{CXDS: cxds.NewMemoryCXDS()})
		conf.DB = data.NewDB(cx, blankIdx())
		var co, err = skyobject.NewContainer(conf)
		if err != nil {
			t.Fatal(err)
		}
		defer co.Close()
		var regs []*registry.Registry
		var n = rapid.IntRange(1, 6).Draw(t, "registries in use")
		for i := 0; i < n; i++ {
			var i = i
			regs = append(regs, registry.NewRegistry(func(r *registry.Reg) { r.Register(fmt.Sprintf("T%d", i), struct{ A [3]uint8 }{}) }))
		}
		c.Note("%s cache, %d registries cached", cname, conf.CacheRegistries)
		var stored = map[int]bool{}
		for k := rapid.IntRange(1, 30).Draw(t, "operations"); k > 0; k-- {
			var i = rapid.IntRange(0, n-1).Draw(t, "registry")
			var ref = regs[i].Reference()
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0:
				c.Note("set %d", i)
				if _, err = co.Set(cipher.SHA256(ref), regs[i].Encode(), 1); err != nil {
					t.Fatal(err)
				}
				stored[i] = true
			case 1:
				c.Note("add %d", i)
				co.AddRegistryToCache(regs[i])
			default:
				c.Note("get %d", i)
				var r, err = co.Registry(ref)
				if err == data.ErrNotFound && !stored[i] {
					break
				}
				if err != nil {
					t.Fatalf("Registry: %v", err)
				}
				if r.Reference() != ref || !bytes.Equal(r.Encode(), regs[i].Encode()) {
					t.Fatal("wrong registry")
				}
			}
		}
		if len(stored) > 1 {
			c.NonTrivial()
		}
		// with no objects only cached registries are left
		var ks []cipher.SHA256
		for k := range content(t, cx) {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return string(ks[i][:]) < string(ks[j][:]) })
		for _, k := range ks {
			if _, _, err = co.Get(k, -1000); err != nil {
				t.Fatal(err)
			}
			if err = cx.Del(k); err != nil {
				t.Fatal(err)
			}
		}
		var cached int
		for _, r := range regs {
			if _, err = co.Registry(r.Reference()); err == nil {
				cached++
			}
		}
		if cached > conf.CacheRegistries {
			t.Fatalf("%d registries are cached, the limit is %d", cached, conf.CacheRegistries)
		}
	})
}
