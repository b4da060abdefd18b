package tsky

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/boltdb/bolt"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject"

	"verif/h/pbt"
)

// TestD05Container opens a container of files one (or both) of which can't
// be used: the files are released, the unusable one stays as it is, and
// the container opens with all its content after the file is back
func TestD05Container(t *testing.T) {
	pbt.Check(t, "damaged files of a container", 100, 1500, func(t *rapid.T, c *pbt.Case) {
		var h = &hist{t: t, c: c, chk: chkIndex | chkRC, p: newPool(), dir: pbt.Scratch(), present: map[hash]bool{}}
		h.feeds = map[cipher.PubKey]map[uint64]*headInfo{}
		defer h.finish()
		h.start()
		h.addFeed()
		for i := rapid.IntRange(1, 3).Draw(t, "ops"); i > 0; i-- {
			h.op("save")
		}
		h.must(h.sc.Close(), "close")
		h.sc, h.open = nil, nil

		var cx, idx = filepath.Join(h.dir, "x.cxds"), filepath.Join(h.dir, "x.idx")
		var paths = rapid.SampledFrom([][]string{{cx}, {idx}, {idx}, {cx, idx}}).Draw(t, "files")
		var how = rapid.SampledFrom([]string{"garbage", "directory", "other database", "foreign database", "too large"}).Draw(t, "how")
		var saved, bad = map[string][]byte{}, map[string][]byte{}
		var read = func(path string) (b []byte) {
			var err error
			b, err = os.ReadFile(path)
			pbt.Infra(err)
			return
		}
		for _, p := range []string{cx, idx} {
			saved[p] = read(p)
		}
		h.note("%s: %q", how, paths)
		c.Class(how)
		c.NonTrivial()
		var conf = h.config()
		conf.DBPath = filepath.Join(h.dir, "x")
		if how == "too large" {
			if len(h.roots()) == 0 {
				return
			}
			conf.CheckSizes, conf.MaxObjectSize = true, 1
			paths = nil
		}
		for _, p := range paths {
			switch how {
			case "garbage":
				bad[p] = rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(t, "garbage")
				pbt.Infra(os.WriteFile(p, bad[p], 0644))
			case "directory":
				pbt.Infra(os.Remove(p))
				pbt.Infra(os.Mkdir(p, 0755))
			case "other database":
				bad[p] = saved[cx]
				if p == cx {
					bad[p] = saved[idx]
				}
				pbt.Infra(os.WriteFile(p, bad[p], 0644))
			default:
				pbt.Infra(os.Remove(p))
				b, err := bolt.Open(p, 0644, nil)
				pbt.Infra(err)
				pbt.Infra(b.Update(func(tx *bolt.Tx) (err error) {
					_, err = tx.CreateBucket([]byte("some"))
					return
				}))
				pbt.Infra(b.Close())
				bad[p] = read(p)
			}
		}
		for i := rapid.IntRange(1, 2).Draw(t, "attempts"); i > 0; i-- {
			if sc, err := skyobject.NewContainer(conf); err == nil {
				sc.Close()
				h.failf("a container is opened")
			} else if how == "too large" {
				if _, ok := err.(*skyobject.ObjectIsTooLargeError); !ok {
					h.failf("error is %v", err)
				}
			}
		}
		for _, p := range paths {
			if bad[p] != nil && !bytes.Equal(read(p), bad[p]) {
				h.failf("unusable file %q is changed", p)
			}
			if how == "directory" {
				if err := os.Remove(p); err != nil {
					h.failf("directory %q is changed: %v", p, err)
				}
			}
			if rapid.Bool().Draw(t, "over") || how == "directory" {
				pbt.Infra(os.WriteFile(p, saved[p], 0644))
			} else {
				// another file (a lock of the old one isn't important)
				pbt.Infra(os.Remove(p))
				pbt.Infra(os.WriteFile(p, saved[p], 0644))
			}
		}
		h.start()
		h.check()
		h.op("save")
		h.check()
	})
}
