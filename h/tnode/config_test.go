package tnode

import (
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/log"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// home is a directory for everything a case creates
func home(t failer) (dir string, rm func()) {
	dir, err := os.MkdirTemp(pbt.Scratch(), "conf")
	if err == nil {
		err = os.MkdirAll(filepath.Join(dir, "home"), 0700)
	}
	if err == nil {
		err = os.MkdirAll(filepath.Join(dir, "cwd"), 0700)
	}
	if err != nil {
		pbt.Infra(err)
	}
	var was = os.Getenv("HOME")
	os.Setenv("HOME", filepath.Join(dir, "home"))
	return dir, func() {
		os.Setenv("HOME", was)
		os.RemoveAll(dir)
	}
}

// tree of files of the directory
func tree(dir string) (fs []string) {
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		var rel, _ = filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		if fi.IsDir() {
			rel += "/"
		}
		fs = append(fs, rel)
		return nil
	})
	sort.Strings(fs)
	return
}

func oneOf(t *rapid.T, what string, is ...int) int { return rapid.SampledFrom(is).Draw(t, what) }

// validity draws a value of every option of the container and says whether all of them are allowed
func validity(t *rapid.T, conf *skyobject.Config) (valid bool, why []string) {
	var bad = func(is bool, what string, v interface{}) {
		if is {
			why = append(why, fmt.Sprintf("%s %v", what, v))
		}
	}
	var odd = func(what string) bool { return rapid.IntRange(0, 5).Draw(t, "odd "+what) == 0 }
	if odd("degree") {
		conf.Degree = registry.Degree(oneOf(t, "degree", -16, -1, 0, 1, 2, 3, 1023, 1024, 1025, 1<<20, math.MaxInt32))
		bad(conf.Degree < 2 || conf.Degree > 1024, "degree", conf.Degree)
	}
	if odd("samples") {
		conf.RollAvgSamples = oneOf(t, "samples", math.MinInt32, -1, 0, 1, 2, 100)
		bad(conf.RollAvgSamples < 1, "samples", conf.RollAvgSamples)
	}
	if odd("amount") {
		conf.CacheMaxAmount = oneOf(t, "amount", math.MinInt32, -1, 0, 1, 1<<16)
		bad(conf.CacheMaxAmount < 0, "amount", conf.CacheMaxAmount)
	}
	if odd("policy") {
		conf.CachePolicy = rapid.SampledFrom([]skyobject.CachePolicy{skyobject.LRU, skyobject.LFU, -1, 2, 77}).Draw(t, "policy")
		bad(conf.CachePolicy != skyobject.LRU && conf.CachePolicy != skyobject.LFU, "policy", conf.CachePolicy)
	}
	if odd("cleaning") {
		conf.CacheCleaning = rapid.SampledFrom([]float64{-1, 0, 0.4999999, 0.5, 0.50001, 0.7, 0.89999, 0.9, 0.900001, 1, 80, math.Inf(1), math.Inf(-1), math.NaN()}).Draw(t, "cleaning")
		bad(!(conf.CacheCleaning >= 0.5 && conf.CacheCleaning <= 0.9), "cleaning", conf.CacheCleaning)
	}
	if odd("volume") {
		conf.CacheMaxVolume = oneOf(t, "volume", math.MinInt32, -1, 0, 10, 1<<20, 1<<24, 1<<40)
		bad(conf.CacheMaxVolume < 0, "volume", conf.CacheMaxVolume)
	}
	// CacheMaxItemSize can't be bigger then CacheMaxVolume*(1.0 - CacheCleaning)
	var max = float64(conf.CacheMaxVolume) * (1 - conf.CacheCleaning)
	if d := rapid.IntRange(0, 6).Draw(t, "item size"); len(why) == 0 && d != 0 {
		switch {
		case d <= 2:
			conf.CacheMaxItemSize = int(max) - 1
		case d == 3:
			conf.CacheMaxItemSize = int(max) + 2
		case d == 4:
			conf.CacheMaxItemSize = rapid.IntRange(0, 1<<22).Draw(t, "item size")
		case d == 5:
			conf.CacheMaxItemSize = 0
		}
	}
	if len(why) == 0 && math.Abs(float64(conf.CacheMaxItemSize)-max) < 1 {
		conf.CacheMaxItemSize = int(max) - 1 // do not depend on rounding
	}
	bad(float64(conf.CacheMaxItemSize) > max, "item size", conf.CacheMaxItemSize)
	if odd("object size") {
		conf.MaxObjectSize = oneOf(t, "object size", math.MinInt32, -1, 0, 1, 1023, 1024, 1025, 1<<31)
		bad(conf.MaxObjectSize < 1024, "object size", conf.MaxObjectSize)
	}
	return len(why) == 0, why
}

// defaults are constants of the packages
func defaults(t failer, c *node.Config) {
	var nc = node.NetConfig{Listen: node.ListenUDP, ResponseTimeout: node.ResponseTimeout, Pings: c.UDP.Pings}
	var want = &node.Config{
		Logger:                log.Config{Prefix: node.Prefix},
		MaxConnections:        node.MaxConnections,
		MaxPendingConnections: node.MaxPendingConnections,
		MaxHeads:              node.MaxHeads,
		MaxFillingTime:        node.MaxFillingTime,
		RPC:                   node.RPCAddress,
		TCP:                   node.NetConfig{Listen: node.ListenTCP, ResponseTimeout: node.ResponseTimeout, Pings: node.Pings},
		UDP:                   nc,
		Public:                node.Public,
		Config: &skyobject.Config{
			Degree:             skyobject.Degree,
			RollAvgSamples:     skyobject.RollAvgSamples,
			CacheMaxAmount:     skyobject.CacheMaxAmount,
			CacheMaxVolume:     skyobject.CacheMaxVolume,
			CachePolicy:        skyobject.LRU,
			CacheRegistries:    skyobject.CacheRegistries,
			CacheCleaning:      skyobject.CacheCleaning,
			CacheMaxItemSize:   skyobject.CacheMaxItemSize,
			MaxObjectSize:      skyobject.MaxObjectSize,
			MaxFillingParallel: skyobject.MaxFillingParallel,
			DataDir:            skyobject.DataDir(),
		},
	}
	if !reflect.DeepEqual(c, want) {
		t.Fatalf("default configurations are\n%+v %+v\nexpected\n%+v %+v", c, c.Config, want, want.Config)
	}
}

// TestC01Validate is about allowed values
func TestC01Validate(t *testing.T) {
	pbt.Check(t, "allowed values", 1500, 20000, func(t *rapid.T, c *pbt.Case) {
		var dir, rm = home(t)
		defer rm()
		var conf = node.NewConfig()
		if err := conf.Validate(); err != nil {
			t.Fatalf("default configurations are refused: %v", err)
		}
		if err := conf.Config.Validate(); err != nil {
			t.Fatalf("default configurations of container are refused: %v", err)
		}
		defaults(t, conf)
		var valid, why = validity(t, conf.Config)
		c.Note("%v", why)
		if !valid {
			c.NonTrivial()
			c.Class("invalid")
		}
		var before = *conf.Config
		if err := conf.Config.Validate(); (err == nil) != valid {
			t.Fatalf("validation of %v: %v", why, err)
		}
		if err := conf.Validate(); (err == nil) != valid {
			t.Fatalf("validation by node of %v: %v", why, err)
		}
		if after := *conf.Config; fmt.Sprint(before) != fmt.Sprint(after) {
			t.Fatalf("validation changes configurations: %v to %v", before, after)
		}
		(&node.Config{}).Validate() // nil container configurations are allowed
		// nothing is created by node for invalid configurations
		conf.TCP.Listen, conf.UDP.Listen, conf.RPC = newAddr(), "", ""
		conf.Logger.Output = logWatch{}
		conf.CacheMaxAmount, conf.InMemoryDB = conf.CacheMaxAmount, valid
		var n, err = node.NewNode(conf)
		if (err == nil) != valid || (n != nil) != valid {
			t.Fatalf("NewNode with %v: %v, %v", why, n, err)
		}
		if n != nil {
			if n.Config().Config.Degree != before.Degree || n.Container().Config() != n.Config().Config {
				t.Fatalf("configurations of the node differ")
			}
			n.Close()
		} else if fs := tree(dir); len(fs) != 2 {
			t.Fatalf("NewNode with %v left %v", why, fs)
		}
		if !valid {
			var sc, err = skyobject.NewContainer(&skyobject.Config{InMemoryDB: true, Degree: 2, RollAvgSamples: 1, CacheCleaning: 0.5, MaxObjectSize: 1024})
			if err != nil {
				t.Fatalf("container: %v", err)
			}
			if n, err := node.NewNodeContainer(conf, sc); err == nil || n != nil {
				t.Fatalf("NewNodeContainer with %v: %v, %v", why, n, err)
			}
			sc.Close()
		}
	})
}

type option struct {
	name string
	draw func(t *rapid.T) (arg string, set func(c *node.Config))
	bad  []string
}

func intOpt(name string, p func(c *node.Config) *int) option {
	return option{name, func(t *rapid.T) (string, func(c *node.Config)) {
		var v = rapid.Int().Draw(t, name)
		return fmt.Sprint(v), func(c *node.Config) { *p(c) = v }
	}, []string{"", "x", "1.5", "99999999999999999999"}}
}

func durOpt(name string, p func(c *node.Config) *time.Duration) option {
	return option{name, func(t *rapid.T) (string, func(c *node.Config)) {
		var v = time.Duration(rapid.Int64().Draw(t, name))
		return v.String(), func(c *node.Config) { *p(c) = v }
	}, []string{"", "x", "15", "1 h"}}
}

func strOpt(name string, p func(c *node.Config) *string) option {
	return option{name, func(t *rapid.T) (string, func(c *node.Config)) {
		var v = rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", ":0", "[::]:8870", "127.0.0.1:1", "-", "a=b", "[x] "})).Draw(t, name)
		return v, func(c *node.Config) { *p(c) = v }
	}, nil}
}

func boolOpt(name string, p func(c *node.Config) *bool) option {
	return option{name, func(t *rapid.T) (string, func(c *node.Config)) {
		var v = rapid.Bool().Draw(t, name)
		return fmt.Sprint(v), func(c *node.Config) { *p(c) = v }
	}, []string{"x", "2", ""}}
}

func options() []option {
	type C = *node.Config
	return []option{
		boolOpt("mem-db", func(c C) *bool { return &c.Config.InMemoryDB }),
		strOpt("data-dir", func(c C) *string { return &c.Config.DataDir }),
		strOpt("db-path", func(c C) *string { return &c.Config.DBPath }),
		strOpt("log-prefix", func(c C) *string { return &c.Logger.Prefix }),
		boolOpt("debug", func(c C) *bool { return &c.Logger.Debug }),
		{"debug-pins", func(t *rapid.T) (string, func(c C)) {
			var v = rapid.Uint().Draw(t, "debug-pins")
			return fmt.Sprint(v), func(c C) { c.Logger.Pins = log.Pin(v) }
		}, []string{"-1", "x", ""}},
		intOpt("max-connections", func(c C) *int { return &c.MaxConnections }),
		durOpt("max-filling-time", func(c C) *time.Duration { return &c.MaxFillingTime }),
		intOpt("max-heads", func(c C) *int { return &c.MaxHeads }),
		strOpt("rpc", func(c C) *string { return &c.RPC }),
		strOpt("tcp", func(c C) *string { return &c.TCP.Listen }),
		durOpt("tcp-response-timeout", func(c C) *time.Duration { return &c.TCP.ResponseTimeout }),
		durOpt("tcp-pings", func(c C) *time.Duration { return &c.TCP.Pings }),
		strOpt("udp", func(c C) *string { return &c.UDP.Listen }),
		durOpt("udp-response-timeout", func(c C) *time.Duration { return &c.UDP.ResponseTimeout }),
		durOpt("udp-pings", func(c C) *time.Duration { return &c.UDP.Pings }),
		boolOpt("public", func(c C) *bool { return &c.Public }),
	}
}

// TestC01Flags is about command line flags
func TestC01Flags(t *testing.T) {
	pbt.Check(t, "flags", 3000, 60000, func(t *rapid.T, c *pbt.Case) {
		var _, rm = home(t)
		defer rm()
		var was = flag.CommandLine
		defer func() { flag.CommandLine = was }()
		flag.CommandLine = flag.NewFlagSet("cxo", flag.ContinueOnError)
		flag.CommandLine.SetOutput(io.Discard)

		var opts = options()
		var conf, model = node.NewConfig(), node.NewConfig()
		var bare = rapid.IntRange(0, 7).Draw(t, "no container configurations") == 0
		// configurations of the application are defaults of the flags
		for i := rapid.IntRange(0, 3).Draw(t, "changes"); i > 0; i-- {
			var _, set = rapid.SampledFrom(opts).Draw(t, "change").draw(t)
			set(conf)
			set(model)
		}
		if bare {
			conf.Config, model.Config, opts = nil, nil, opts[3:]
		}
		conf.FromFlags()
		var addrs node.Addresses
		flag.Var(&addrs, "discovery", "addresses")
		var wantAddrs []string
		var args []string
		var fails bool
		for i := rapid.IntRange(0, 6).Draw(t, "flags"); i > 0 && !fails; i-- {
			if rapid.IntRange(0, 5).Draw(t, "discovery") == 0 {
				var a = rapid.SampledFrom([]string{"a:1", "b:2", "", "c d"}).Draw(t, "address")
				wantAddrs = append(wantAddrs, a)
				args = append(args, "-discovery="+a)
				continue
			}
			var o = rapid.SampledFrom(opts).Draw(t, "flag")
			if len(o.bad) > 0 && rapid.IntRange(0, 12).Draw(t, "malformed") == 0 {
				args = append(args, "-"+o.name+"="+rapid.SampledFrom(o.bad).Draw(t, "malformed"))
				fails = true
				break
			}
			var arg, set = o.draw(t)
			args = append(args, "-"+o.name+"="+arg)
			set(model)
		}
		c.Note("%q", args)
		if len(args) > 1 {
			c.NonTrivial()
		}
		var err = flag.CommandLine.Parse(args)
		if (err != nil) != fails {
			t.Fatalf("%q: %v", args, err)
		}
		if !fails && !reflect.DeepEqual(conf, model) {
			t.Fatalf("%q: configurations are\n%+v %+v\nexpected\n%+v %+v", args, conf, conf.Config, model, model.Config)
		}
		if fmt.Sprint(addrs) != fmt.Sprint(wantAddrs) || addrs.String() != "["+strings.Join(wantAddrs, " ")+"]" {
			t.Fatalf("%q: addresses are %q", args, addrs)
		}
	})
}

// TestC01Place is about place of the database
func TestC01Place(t *testing.T) {
	pbt.Check(t, "place of database", 150, 3000, func(t *rapid.T, c *pbt.Case) {
		var dir, rm = home(t)
		defer rm()
		var def = rapid.IntRange(0, 9).Draw(t, "defaults") == 0
		var conf = skyobject.NewConfig()
		var dflt = filepath.Join(dir, "home", ".skycoin", "cxo")
		if conf.DataDir != dflt || skyobject.DataDir() != dflt {
			t.Fatalf("default data dir is %q", conf.DataDir)
		}
		var datadir, cx, idx = dflt, filepath.Join(dflt, "cxds.db"), filepath.Join(dflt, "idx.db")
		var fails, mem bool
		var db *data.DB
		if !def {
			switch rapid.IntRange(0, 3).Draw(t, "data dir") {
			case 0:
				conf.DataDir, datadir = "", filepath.Join(dir, "cwd")
				cx, idx = filepath.Join(datadir, "cxds.db"), filepath.Join(datadir, "idx.db")
			case 1:
				datadir = filepath.Join(dir, "a", "b", "c d")
				conf.DataDir = datadir
				cx, idx = filepath.Join(datadir, "cxds.db"), filepath.Join(datadir, "idx.db")
			case 2:
				datadir = filepath.Join(dir, "home")
				conf.DataDir = datadir
				cx, idx = filepath.Join(datadir, "cxds.db"), filepath.Join(datadir, "idx.db")
			}
			switch rapid.IntRange(0, 4).Draw(t, "path") {
			case 0, 1:
				conf.DBPath = filepath.Join(dir, "home", "some")
				cx, idx = conf.DBPath+".cxds", conf.DBPath+".idx"
			case 2:
				conf.DBPath = filepath.Join(dir, "missing", "some")
				fails = true
			}
			if rapid.IntRange(0, 3).Draw(t, "in memory") == 0 {
				conf.InMemoryDB, mem, fails = true, true, false
			}
			if rapid.IntRange(0, 4).Draw(t, "provided") == 0 {
				db = data.NewDB(keepCXDS{cxds.NewMemoryCXDS(), new(int32), false}, keepIdxDB{idxdb.NewMemeoryDB(), new(int32), false})
				conf.DB, mem, fails = db, true, false
			}
		} else {
			conf = nil
		}
		c.Note("%+v", conf)
		c.NonTrivial()
		var wd, err = os.Getwd()
		if err != nil {
			pbt.Infra(err)
		}
		os.Chdir(filepath.Join(dir, "cwd"))
		defer os.Chdir(wd)
		var before = tree(dir)
		var open = func() (sc *skyobject.Container) {
			var err error
			if sc, err = skyobject.NewContainer(conf); (err != nil) != fails {
				t.Fatalf("NewContainer %+v: %v", conf, err)
			}
			if err == nil && conf != nil && sc.Config() != conf {
				t.Fatalf("configurations of the container are not provided ones")
			}
			return
		}
		var sc = open()
		var want = map[string]bool{}
		for _, f := range before {
			want[f] = true
		}
		if conf == nil || conf.DataDir != "" {
			for d := datadir; d != dir; d = filepath.Dir(d) {
				var rel, _ = filepath.Rel(dir, d)
				want[rel+"/"] = true
			}
		}
		if !mem && !fails {
			for _, f := range []string{cx, idx} {
				var rel, _ = filepath.Rel(dir, f)
				want[rel] = true
			}
		}
		var got = tree(dir)
		for _, f := range got {
			if !want[f] {
				t.Fatalf("%+v: %q is created", conf, f)
			}
		}
		if len(got) != len(want) {
			t.Fatalf("%+v: created %q, expected %v", conf, got, want)
		}
		if fails {
			return
		}
		var feed cipher.PubKey
		rapid.SliceOfN(rapid.Byte(), 33, 33).Draw(t, "feed")
		for i := range feed {
			feed[i] = byte(i + 1)
		}
		var deg = skyobject.Degree
		if conf != nil {
			deg = conf.Degree
		}
		if sc.Config().Degree != deg {
			t.Fatalf("degree is %d", sc.Config().Degree)
		}
		if err := sc.AddFeed(feed); err != nil {
			t.Fatalf("AddFeed: %v", err)
		}
		if err := sc.Close(); err != nil {
			t.Fatalf("Close: %v", err)
		}
		sc = open()
		defer sc.Close()
		if has := len(sc.Feeds()) == 1; has != (!mem || db != nil) {
			t.Fatalf("%+v: feeds after reopening: %v", conf, sc.Feeds())
		}
	})
}
