package tsky

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// keepCXDS ignores Close, then the content can be inspected and the store
// can be opened again
type keepCXDS struct {
	data.CXDS
	setHook *atomic.Value
}

func (k keepCXDS) Set(key cipher.SHA256, val []byte, inc int) (rc uint32, err error) {
	if k.setHook != nil {
		if fn, ok := k.setHook.Load().(func()); ok {
			fn()
		}
	}
	return k.CXDS.Set(key, val, inc)
}

func (keepCXDS) Close() error { return nil }

type keepIdxDB struct{ data.IdxDB }

func (keepIdxDB) Close() error { return nil }

// testDB is a database that survives closing by a container
type testDB struct {
	cx  data.CXDS
	idx data.IdxDB

	setHook atomic.Value // func() called before a Set
}

func memDB() *testDB { return &testDB{cx: cxds.NewMemoryCXDS(), idx: idxdb.NewMemeoryDB()} }

func (d *testDB) db() *data.DB { return data.NewDB(keepCXDS{d.cx, &d.setHook}, keepIdxDB{d.idx}) }

// close really
func (d *testDB) close() {
	d.cx.Close()
	d.idx.Close()
}

// blankIdx is for tests without roots
var blankIdx = sync.OnceValue(func() data.IdxDB { return keepIdxDB{idxdb.NewMemeoryDB()} })

func hashOf(b []byte) cipher.SHA256 { return cipher.SHA256(sha256.Sum256(b)) }

func short(h cipher.SHA256) string { return h.Hex()[:6] }

// drawCache makes cache small, big or disabled
func drawCache(t *rapid.T, conf *skyobject.Config) (name string) {
	if rapid.Bool().Draw(t, "LFU") {
		conf.CachePolicy = skyobject.LFU
	}
	conf.CacheCleaning = rapid.SampledFrom([]float64{0.5, 0.8, 0.9}).Draw(t, "cleaning")
	conf.CacheRegistries = rapid.IntRange(0, 3).Draw(t, "registries")
	switch rapid.IntRange(0, 5).Draw(t, "cache") {
	case 0:
		conf.CacheMaxAmount = 0
		conf.CacheMaxItemSize = 1000
		name = "disabled by amount"
	case 1:
		conf.CacheMaxVolume = 0
		conf.CacheMaxItemSize = 0
		name = "disabled by volume"
	case 2:
		name = "default"
		conf.CacheMaxItemSize = int(float64(conf.CacheMaxVolume) * (1 - conf.CacheCleaning))
	default:
		conf.CacheMaxAmount = rapid.IntRange(1, 8).Draw(t, "cached items")
		conf.CacheMaxVolume = rapid.SampledFrom([]int{10, 100, 300, 1000, 10000}).Draw(t, "cached volume")
		conf.CacheMaxItemSize = int(float64(conf.CacheMaxVolume) * (1 - conf.CacheCleaning))
		name = "small"
	}
	if err := conf.Validate(); err != nil {
		t.Fatalf("configs %v: %v", conf, err)
	}
	return
}

// content of a store
type rcval struct {
	rc  uint32
	val string
}

func content(t *rapid.T, cx data.CXDS) (m map[cipher.SHA256]rcval) {
	m = make(map[cipher.SHA256]rcval)
	var err = cx.Iterate(func(key cipher.SHA256, rc uint32, val []byte) error {
		m[key] = rcval{rc, string(val)}
		return nil
	})
	if err != nil {
		t.Fatal(err)
	}
	return
}

var _ = binary.LittleEndian
var _ = fmt.Sprint
var _ registry.Pack
