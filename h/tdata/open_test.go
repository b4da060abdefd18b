package tdata

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/boltdb/bolt"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"

	"verif/h/pbt"
)

// a store of any kind
type store struct {
	name string
	open func(path string) (close func() error, err error)
	fill func(t fataler, path string) (check func(t fataler, what string))

	version              int
	old, new, meta, vers error
}

func stores(t *rapid.T, c *pbt.Case) [2]store {
	return [2]store{
		{
			name: "objects",
			open: func(p string) (func() error, error) {
				var ds, err = cxds.NewDriveCXDS(p)
				if err != nil {
					if ds != nil {
						t.Fatalf("store and error")
					}
					return nil, err
				}
				return ds.Close, nil
			},
			fill: func(_ fataler, p string) func(fataler, string) {
				var m = make(objs)
				var ds, err = cxds.NewDriveCXDS(p)
				pbt.Infra(err)
				for i := rapid.IntRange(0, 4).Draw(t, "objects"); i > 0; i-- {
					var val = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "value")
					var rc = rapid.IntRange(1, 3).Draw(t, "rc")
					var key = cipher.SumSHA256(val)
					n, err := ds.Set(key, val, rc)
					if err != nil {
						t.Fatalf("Set: %v", err)
					}
					m[key] = obj{val, n}
				}
				pbt.Infra(ds.Close())
				return func(_ fataler, what string) {
					ds, err := cxds.NewDriveCXDS(p)
					if err != nil {
						t.Fatalf("%s, can't open: %v", what, err)
					}
					defer ds.Close()
					got, err := content(ds)
					if err == nil {
						err = same(m, got)
					}
					if err == nil {
						err = sameTotals(m, ds)
					}
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
				}
			},
			version: cxds.Version, old: cxds.ErrOldVersion, new: cxds.ErrNewVersion,
			meta: cxds.ErrMissingMetaInfo, vers: cxds.ErrMissingVersion,
		},
		{
			name: "index",
			open: func(p string) (func() error, error) {
				var ds, err = idxdb.NewDriveIdxDB(p)
				if err != nil {
					if ds != nil {
						t.Fatalf("index and error")
					}
					return nil, err
				}
				return ds.Close, nil
			},
			fill: func(_ fataler, p string) func(fataler, string) {
				var (
					m   = make(mFeeds)
					ip  = drawIdxPool(t)
					idx = openIdx(t, p)
				)
				if err := idx.Tx(func(fs data.Feeds) error {
					for i := rapid.IntRange(0, 6).Draw(t, "ops"); i > 0; i-- {
						idxOp(t, c, ip, fs, m)
					}
					return nil
				}); err != nil {
					t.Fatalf("Tx: %v", err)
				}
				pbt.Infra(idx.Close())
				return func(_ fataler, what string) {
					var idx = openIdx(t, p)
					defer idx.Close()
					idxCheck(t, what, m, idx)
				}
			},
			version: idxdb.Version, old: idxdb.ErrOldVersion, new: idxdb.ErrNewVersion,
			meta: idxdb.ErrMissingMetaInfo, vers: idxdb.ErrMissingVersion,
		},
	}
}

// a file that is not a store of this version is refused and stays as
// it is, and a store can be opened whatever happened to the previous
// opening
func TestD05Open(t *testing.T) {
	pbt.Check(t, "open", 600, 6000, func(t *rapid.T, c *pbt.Case) {
		var (
			dir  = pbt.Scratch()
			path = filepath.Join(dir, "s.db")
			sts  = stores(t, c)
			kind = rapid.IntRange(0, 1).Draw(t, "kind")
			st   = sts[kind]
			how  = rapid.SampledFrom([]string{"version", "version", "no version", "no meta", "foreign", "other", "garbage",
				"directory", "missing directory", "busy", "disk", "disk", "closing"}).Draw(t, "how")
		)
		defer os.RemoveAll(dir)
		if how == "busy" && rapid.IntRange(0, 7).Draw(t, "slow") > 0 {
			how = "version" // opening of a busy file takes time
		}
		c.Note("%s: %s", st.name, how)
		c.Class(how)
		var refused = func(what string, want error) {
			var before, _ = os.ReadFile(path)
			var closing, err = st.open(path)
			if err == nil {
				closing()
				t.Fatalf("%s: %s: opened", st.name, what)
			}
			if want != nil && err != want {
				t.Fatalf("%s: %s: error %v, want %v", st.name, what, err, want)
			}
			var after, e = os.ReadFile(path)
			if len(before) > 0 && (e != nil || !bytes.Equal(before, after)) {
				t.Fatalf("%s: %s: refused file is changed or removed: %v", st.name, what, e)
			}
		}
		var u32 = func(v int) []byte {
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], uint32(v))
			return b[:]
		}
		// where the version is, by an empty store
		var bucket, key []byte
		var find = func() {
			var p = filepath.Join(dir, "empty.db")
			var closing, err = st.open(p)
			if err != nil {
				t.Fatalf("create: %v", err)
			}
			pbt.Infra(closing())
			b, err := bolt.Open(p, 0644, nil)
			pbt.Infra(err)
			defer b.Close()
			pbt.Infra(b.View(func(tx *bolt.Tx) error {
				return tx.ForEach(func(name []byte, bk *bolt.Bucket) error {
					return bk.ForEach(func(k, v []byte) error {
						if bytes.Equal(v, u32(st.version)) {
							bucket, key = append([]byte{}, name...), append([]byte{}, k...)
						}
						return nil
					})
				})
			}))
			if key == nil {
				t.Fatalf("%s: no version in the file", st.name)
			}
		}
		// replaces the version; nil deletes it
		var setVersion = func(to []byte) {
			find()
			b, err := bolt.Open(path, 0644, nil)
			pbt.Infra(err)
			defer b.Close()
			pbt.Infra(b.Update(func(tx *bolt.Tx) error {
				if to == nil {
					return tx.Bucket(bucket).Delete(key)
				}
				return tx.Bucket(bucket).Put(key, to)
			}))
		}
		switch how {
		case "version", "no version":
			var check = st.fill(t, path)
			var v = rapid.SampledFrom([]int{0, 1, st.version - 1, st.version + 1, st.version + 2, 1 << 20, 1<<32 - 1}).Draw(t, "version")
			if v == st.version {
				v++
			}
			if how == "version" {
				setVersion(u32(v))
				var want = st.old
				if v > st.version {
					want = st.new
				}
				refused(fmt.Sprintf("version %d", v), want)
				setVersion(u32(st.version))
				check(t, "version is back")
			} else {
				setVersion(nil)
				refused(how, st.vers)
			}
			c.NonTrivial()
		case "no meta", "foreign":
			b, err := bolt.Open(path, 0644, nil)
			pbt.Infra(err)
			pbt.Infra(b.Update(func(tx *bolt.Tx) error {
				for i := rapid.IntRange(1, 3).Draw(t, "buckets"); i > 0; i-- {
					bk, err := tx.CreateBucketIfNotExists([]byte(rapid.StringMatching("[a-z]{10,12}").Draw(t, "name")))
					if err != nil {
						return err
					}
					if how == "foreign" {
						pbt.Infra(bk.Put([]byte("key"), []byte("value")))
					}
				}
				return nil
			}))
			pbt.Infra(b.Close())
			refused(how, st.meta)
			c.NonTrivial()
		case "other":
			// a store of the other kind
			var check = sts[1-kind].fill(t, path)
			refused(how, nil)
			check(t, "refused as "+st.name)
			c.NonTrivial()
		case "garbage":
			pbt.Infra(os.WriteFile(path, rapid.SliceOfN(rapid.Byte(), 1, 10000).Draw(t, "garbage"), 0644))
			refused(how, nil)
			c.NonTrivial()
		case "directory":
			pbt.Infra(os.Mkdir(path, 0755))
			refused(how, nil)
			if st, err := os.Stat(path); err != nil || !st.IsDir() {
				t.Fatalf("directory is removed")
			}
		case "missing directory":
			path = filepath.Join(dir, "a", "b")
			refused(how, nil)
		case "busy":
			var check = st.fill(t, path)
			b, err := bolt.Open(path, 0644, nil)
			pbt.Infra(err)
			pbt.Within(hang, "opening of a busy file", func() { refused(how, nil) })
			pbt.Infra(b.Close())
			check(t, "is not busy")
			c.NonTrivial()
		case "closing":
			// closing fails because of the disk
			var check = st.fill(t, path)
			closing, err := st.open(path)
			pbt.Infra(err)
			var cr = &crash{path: path, fail: 1}
			cr.install()
			defer uninstall()
			err = closing()
			var failed = cr.fail == 0
			cr.fail = 0
			if failed != (err != nil) {
				t.Fatalf("%s: Close: %v, disk failure: %v", st.name, err, failed)
			}
			check(t, "closing failed")
			closing() // again
			check(t, "closed again")
			c.NonTrivial()
		case "disk":
			// creating or opening fails because of the disk
			var check func(fataler, string)
			if rapid.Bool().Draw(t, "existing") {
				check = st.fill(t, path)
			}
			var cr = &crash{path: path, fail: 1}
			cr.install()
			defer uninstall()
			closing, err := st.open(path)
			var failed = cr.fail == 0
			cr.fail = 0
			if failed && err == nil {
				closing()
				t.Fatalf("%s: opened although a transaction failed", st.name)
			}
			if err == nil {
				closing()
			}
			if check != nil {
				check(t, "opening failed")
			} else if closing, err = st.open(path); err != nil {
				t.Fatalf("%s: creating failed, can't create again: %v", st.name, err)
			} else {
				closing()
			}
			c.NonTrivial()
		}
	})
}

// a store that only can be closed
type closer struct {
	data.CXDS
	err error
	n   int
}

func (c *closer) Close() error { c.n++; return c.err }

type idxCloser struct {
	data.IdxDB
	err error
	n   int
}

func (c *idxCloser) Close() error { c.n++; return c.err }

// both stores are closed with the database, an error is reported,
// and a temporary index is removed
func TestD05Close(t *testing.T) {
	pbt.Check(t, "close", 60, 600, func(t *rapid.T, c *pbt.Case) {
		var (
			errs = rapid.SampledFrom([]error{nil, nil, errTest})
			a    = &closer{err: errs.Draw(t, "objects error")}
			b    = &idxCloser{err: errs.Draw(t, "index error")}
			db   = data.NewDB(a, b)
		)
		if db.CXDS() != data.CXDS(a) || db.IdxDB() != data.IdxDB(b) {
			t.Fatalf("NewDB gives other stores")
		}
		var err = db.Close()
		if a.n == 0 || b.n == 0 {
			t.Fatalf("objects closed %d times, index %d times", a.n, b.n)
		}
		if (err != nil) != (a.err != nil || b.err != nil) {
			t.Fatalf("Close: %v, of objects %v, of index %v", err, a.err, b.err)
		}
		var dir = pbt.Scratch()
		defer os.RemoveAll(dir)
		var tmp, set = os.LookupEnv("TMPDIR")
		os.Setenv("TMPDIR", dir)
		var (
			idx = idxdb.NewMemeoryDB()
			p   = drawIdxPool(t)
			m   = make(mFeeds)
		)
		if set {
			os.Setenv("TMPDIR", tmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
		if err := idx.Tx(func(fs data.Feeds) error {
			for i := rapid.IntRange(0, 6).Draw(t, "ops"); i > 0; i-- {
				idxOp(t, c, p, fs, m)
			}
			return nil
		}); err != nil {
			t.Fatalf("Tx: %v", err)
		}
		if err := idx.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		fs, err := os.ReadDir(dir)
		pbt.Infra(err)
		if len(fs) > 0 {
			t.Fatalf("closed index in memory left file %s", fs[0].Name())
		}
		var ds = cxds.NewMemoryCXDS()
		if _, err := ds.Set(cipher.SumSHA256([]byte{1}), []byte{1}, 1); err != nil {
			t.Fatalf("Set: %v", err)
		}
		pbt.Within(hang, "closing twice", func() {
			for i := 0; i < 2; i++ {
				if err := ds.Close(); err != nil {
					t.Fatalf("Close: %v", err)
				}
			}
		})
		c.NonTrivial()
	})
}
