package tnode

import (
	"fmt"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// newRPCNode creates a node with RPC over loopback
func newRPCNode(t failer, i int, change func(conf *node.Config)) (x *tnode, rc *node.RPCClient) {
	for try := 0; ; try++ {
		var l, err = net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			pbt.Infra(err)
		}
		var addr = l.Addr().String()
		l.Close()
		x = &tnode{i: i, db: memDB(), addr: newAddr(), udp: newAddr(), open: map[*node.Conn]int{}}
		x.n, err = x.start(func(conf *node.Config) {
			conf.RPC = addr
			if change != nil {
				change(conf)
			}
		})
		if err == nil {
			rc, err = node.NewRPCClient(addr)
			if err == nil {
				// other process can use the port
				var got string
				if got, err = rc.TCP().Address(); err == nil && got == x.addr {
					return
				}
				rc.Close()
			}
			x.n.Close()
		}
		if try > 20 {
			t.Fatalf("RPC: %v", err)
		}
	}
}

// world is a node with a peer; there are two equal worlds: one is controlled
// by RPC, the other by methods of the node
type world struct {
	x, y *tnode
	rc   *node.RPCClient // or nil
	down string          // nobody listens on it
	rep  *strings.Replacer
}

func (w *world) stop() {
	if w.rc != nil {
		w.rc.Close()
	}
	w.x.stop()
	w.y.stop()
}

// canon replaces names of the world
func (w *world) canon(s string) string { return w.rep.Replace(s) }

func (w *world) err(err error) string {
	if err == nil {
		return "ok"
	}
	return w.canon(err.Error())
}

func newWorld(t failer, rpc bool, share []int, change func(conf *node.Config)) (w *world) {
	w = &world{down: newAddr()}
	if rpc {
		w.x, w.rc = newRPCNode(t, 0, change)
	} else {
		w.x = newNode(t, 0, change)
	}
	w.y = newNode(t, 1, nil)
	for _, f := range share {
		if err := w.y.n.Share(keys[f].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
	}
	w.rep = strings.NewReplacer(w.x.addr, "X", w.x.udp, "XU", w.y.addr, "Y", w.y.udp, "YU", w.down, "D",
		w.x.n.ID().Hex(), "IX", w.y.n.ID().Hex(), "IY", w.x.n.ID().Hex()[:7], "ix", w.y.n.ID().Hex()[:7], "iy")
	return
}

func (w *world) conn(addr string, tcp bool) *node.Conn {
	for _, c := range w.x.n.Connections() {
		if c.Address() == addr && c.IsTCP() == tcp {
			return c
		}
	}
	return nil
}

// addr by number: peer, nobody, nonsense
func (w *world) addr(k int, tcp bool) string {
	switch {
	case k == 0 && tcp:
		return w.y.addr
	case k == 0:
		return w.y.udp
	case k == 1:
		return w.down
	}
	return ""
}

// transport is TCP or UDP methods of RPC
type transport interface {
	Connect(string) error
	Disconnect(string) error
	Subscribe(string, cipher.PubKey) error
	Unsubscribe(string, cipher.PubKey) error
	RemoteFeeds(string) ([]cipher.PubKey, error)
	Address() (string, error)
}

func (w *world) transport(tcp bool) transport {
	if tcp {
		return w.rc.TCP()
	}
	return w.rc.UDP()
}

const (
	opShare = iota
	opDontShare
	opConnect
	opDisconnect
	opSubscribe
	opUnsubscribe
	opRemoteFeeds
	opMax
)

var opNames = [opMax]string{"share", "don't share", "connect", "disconnect", "subscribe", "unsubscribe", "remote feeds"}

// do performs the action and returns its result
func (w *world) do(op int, pk cipher.PubKey, addr int, tcp bool) (res string) {
	var a = w.addr(addr, tcp)
	if w.rc != nil {
		switch op {
		case opShare:
			return w.err(w.rc.Node().Share(pk))
		case opDontShare:
			return w.err(w.rc.Node().DontShare(pk))
		case opConnect:
			return w.err(w.transport(tcp).Connect(a))
		case opDisconnect:
			return w.err(w.transport(tcp).Disconnect(a))
		case opSubscribe:
			return w.err(w.transport(tcp).Subscribe(a, pk))
		case opUnsubscribe:
			return w.err(w.transport(tcp).Unsubscribe(a, pk))
		case opRemoteFeeds:
			var fs, err = w.transport(tcp).RemoteFeeds(a)
			return w.err(err) + " " + feedNames(fs)
		}
	}
	switch op {
	case opShare:
		return w.err(w.x.n.Share(pk))
	case opDontShare:
		return w.err(w.x.n.DontShare(pk))
	case opConnect:
		var err error
		if tcp {
			_, err = w.x.n.TCP().Connect(a)
		} else {
			_, err = w.x.n.UDP().Connect(a)
		}
		return w.err(err)
	}
	var c = w.conn(a, tcp)
	if c == nil {
		switch op {
		case opDisconnect:
			return "ok"
		case opRemoteFeeds:
			return "no such connection "
		}
		return "no such connection"
	}
	switch op {
	case opDisconnect:
		return w.err(c.Close())
	case opSubscribe:
		return w.err(c.Subscribe(pk))
	case opUnsubscribe:
		c.Unsubscribe(pk)
		return "ok"
	case opRemoteFeeds:
		var fs, err = c.RemoteFeeds()
		return w.err(err) + " " + feedNames(fs)
	}
	panic(op)
}

func sorted(ss []string) string {
	sort.Strings(ss)
	return strings.Join(ss, ", ")
}

// settled tells what the nodes disagree about
func (w *world) settled() string {
	var sides [2]string
	for i, x := range []*tnode{w.x, w.y} {
		var cs []string
		for _, c := range x.n.Connections() {
			cs = append(cs, fmt.Sprintf("%v %v %s", c.IsTCP(), c.IsIncoming() == (i == 1), feedNames(c.Feeds())))
		}
		sides[i] = sorted(cs)
	}
	if sides[0] != sides[1] {
		return fmt.Sprintf("a side has [%s], another [%s]", sides[0], sides[1])
	}
	return ""
}

// state of the world, by local methods
func (w *world) state() string {
	var ss []string
	for _, x := range []*tnode{w.x, w.y} {
		ss = append(ss, "feeds "+feedNames(x.n.Feeds()))
		var cs []string
		for _, c := range x.n.Connections() {
			var other = "YU"
			if c.IsTCP() {
				other = "Y"
			}
			if x == w.y {
				other = strings.Replace(other, "Y", "X", 1)
			}
			cs = append(cs, fmt.Sprintf("%s %v %s", other, c.IsIncoming(), feedNames(c.Feeds())))
		}
		ss = append(ss, sorted(cs))
		for f := 0; f < 3; f++ {
			ss = append(ss, fmt.Sprint(x.n.IsSharing(keys[f].pk), len(x.n.ConnectionsOfFeed(keys[f].pk))))
		}
	}
	return strings.Join(ss, "; ")
}

// reads compares what RPC tells with local methods
func (w *world) reads(t failer) {
	var n = w.rc.Node()
	var fs, err = n.Feeds()
	if g, l := feedNames(fs), feedNames(w.x.n.Feeds()); err != nil || g != l {
		t.Fatalf("RPC feeds %s %v, local %s", g, err, l)
	}
	for f := 0; f < 4; f++ {
		var pk = keys[f].pk
		if f == 3 {
			pk = cipher.PubKey{}
		}
		var yep, err = n.IsSharing(pk)
		if l := w.x.n.IsSharing(pk); err != nil || yep != l {
			t.Fatalf("RPC IsSharing %v %v, local %v", yep, err, l)
		}
		var local []string
		for _, c := range w.x.n.ConnectionsOfFeed(pk) {
			local = append(local, c.String())
		}
		var cs, e = n.ConnectionsOfFeed(pk)
		if g, l := sorted(cs), sorted(local); e != nil || g != l {
			t.Fatalf("RPC ConnectionsOfFeed %s %v, local %s", g, e, l)
		}
	}
	var local []string
	for _, c := range w.x.n.Connections() {
		local = append(local, c.String()+"(✓)")
	}
	var cs, e = n.Connections()
	if g, l := sorted(cs), sorted(local); e != nil || g != l {
		t.Fatalf("RPC Connections %s %v, local %s", g, e, l)
	}
	if a, err := w.rc.TCP().Address(); err != nil || a != w.x.addr {
		t.Fatalf("RPC TCP address %s %v", a, err)
	}
	if a, err := w.rc.UDP().Address(); err != nil || a != w.x.udp {
		t.Fatalf("RPC UDP address %s %v", a, err)
	}
}

func rootString(r *registry.Root) string {
	return fmt.Sprintf("%x %s %s %v %s", r.Encode(), r.Sig.Hex(), r.Hash.Hex(), r.IsFull, r.Pub.Hex())
}

// roots compares roots of the node
func (w *world) roots(t failer, pk cipher.PubKey, nonce, seq uint64) {
	var co = w.x.n.Container()
	var is = func(what string, r *registry.Root, err error, l *registry.Root, lerr error) {
		if w.err(err) != w.err(lerr) {
			t.Fatalf("RPC %s: %v, local: %v", what, err, lerr)
		}
		if err != nil {
			return
		}
		if g, w := rootString(r), rootString(l); g != w {
			t.Fatalf("RPC %s: %s, local %s", what, g, w)
		}
	}
	var r, err = w.rc.Root().Show(pk, nonce, seq)
	var l, lerr = co.Root(pk, nonce, seq)
	is("show", r, err, l, lerr)
	var tree, terr = w.rc.Root().Tree(pk, nonce, seq)
	if lerr != nil {
		if w.err(terr) != w.err(lerr) {
			t.Fatalf("RPC tree: %v, local: %v", terr, lerr)
		}
	} else {
		var p, err = co.Pack(l, nil)
		if err != nil {
			t.Fatalf("pack: %v", err)
		}
		var ltree, lerr = l.Tree(p)
		if w.err(terr) != w.err(lerr) || tree != ltree && terr == nil {
			t.Fatalf("RPC tree: %q %v, local %q %v", tree, terr, ltree, lerr)
		}
	}
	r, err = w.rc.Root().Last(pk)
	l, lerr = co.LastRoot(pk, co.ActiveHead(pk))
	is("last", r, err, l, lerr)
}

// stable part of the statistic
func statString(s *node.Stat) string {
	if s == nil || s.Stat == nil {
		return "no"
	}
	var st = *s.Stat
	var feeds []string
	for pk, f := range st.Feeds {
		for nonce, h := range f.Heads {
			feeds = append(feeds, fmt.Sprintf("%s %d %+v", pk.Hex(), nonce, h))
		}
		feeds = append(feeds, fmt.Sprintf("%s %d", pk.Hex(), len(f.Heads)))
	}
	return sorted(feeds) + fmt.Sprintf(" %+v %+v %+v", st.AllObjects, st.CacheObjects, st.UsedObjects)
}

// sameConfig compares what can be told
func sameConfig(g, w *node.Config) (s string) {
	if g.SecKey != (cipher.SecKey{}) {
		s += "the secret key is told "
	}
	var compare = func(g, w reflect.Value) {
		for i := 0; i < g.NumField(); i++ {
			var name = g.Type().Field(i).Name
			switch g.Field(i).Kind() {
			case reflect.Func, reflect.Interface, reflect.Ptr:
				continue
			}
			switch name {
			case "Logger", "SecKey":
				continue
			}
			if fmt.Sprintf("%+v", g.Field(i).Interface()) != fmt.Sprintf("%+v", w.Field(i).Interface()) {
				s += name + " "
			}
		}
	}
	compare(reflect.ValueOf(g).Elem(), reflect.ValueOf(w).Elem())
	if g.Config == nil {
		return s + "Config"
	}
	compare(reflect.ValueOf(g.Config).Elem(), reflect.ValueOf(w.Config).Elem())
	return
}

func TestN07(t *testing.T) {
	pbt.Check(t, "twin", 800, 8000, func(t *rapid.T, c *pbt.Case) {
		var share []int
		for f := 0; f < 3; f++ {
			if rapid.Bool().Draw(t, "peer shares") {
				share = append(share, f)
			}
		}
		var maxConns, maxHeads = rapid.IntRange(0, 2).Draw(t, "max connections"), rapid.IntRange(0, 9).Draw(t, "max heads")
		var public = rapid.Bool().Draw(t, "public")
		var _, sk = cipher.MustGenerateDeterministicKeyPair([]byte(newAddr()))
		var known = rapid.Bool().Draw(t, "secret key")
		var change = func(conf *node.Config) {
			conf.MaxConnections = maxConns
			conf.MaxHeads = maxHeads
			conf.Public = public
			conf.MaxFillingTime = time.Duration(maxHeads) * time.Hour
			conf.Config.CacheMaxAmount = 100 + maxHeads
			if known && conf.RPC != "" {
				conf.SecKey = sk
			}
		}
		var ws = []*world{newWorld(t, true, share, change), newWorld(t, false, share, change)}
		defer ws[0].stop()
		defer ws[1].stop()
		var p = newPool()
		var own *owner
		var ok, failed int
		for k := rapid.IntRange(1, 20).Draw(t, "ops"); k > 0; k-- {
			switch op := rapid.IntRange(0, 2*opMax+2).Draw(t, "op"); op {
			case 2 * opMax:
				// roots
				var a = ws[0]
				if own == nil {
					own = newOwner(t, a.x, keys[3])
					if err := ws[1].x.n.Share(keys[3].pk); err != nil {
						t.Fatalf("share: %v", err)
					}
				}
				if !a.x.n.IsSharing(keys[3].pk) {
					break
				}
				for m := rapid.IntRange(1, 3).Draw(t, "save"); m > 0; m-- {
					var refs []registry.Dynamic
					if rapid.IntRange(0, 3).Draw(t, "empty") > 0 {
						refs = drawRefs(t, p, 3)
					}
					own.save(t, p, uint64(rapid.IntRange(1, 2).Draw(t, "head")), refs)
				}
				var pk = keys[rapid.SampledFrom([]int{3, 3, 3, 0}).Draw(t, "feed")].pk
				a.roots(t, pk, uint64(rapid.IntRange(0, 3).Draw(t, "nonce")), uint64(rapid.IntRange(0, 4).Draw(t, "seq")))
				c.Note("roots")
			case 2*opMax + 1:
				ws[0].reads(t)
			case 2*opMax + 2:
				c.Note("stat and config")
				var n = ws[0].rc.Node()
				eventually(t, "equal statistic", func() string {
					var s, err = n.Stat()
					if err != nil {
						t.Fatalf("RPC Stat: %v", err)
					}
					var x = ws[0].x.n
					if g, w := statString(s), statString(x.Stat()); g != w {
						return fmt.Sprintf("RPC %s, local %s", g, w)
					}
					if g, w := statString(s), statString(&node.Stat{Stat: x.Container().Stat()}); g != w {
						return fmt.Sprintf("RPC %s, container %s", g, w)
					}
					return ""
				})
				var conf, err = n.Config()
				if err != nil {
					t.Fatalf("RPC Config: %v", err)
				}
				if d := sameConfig(conf, ws[0].x.n.Config()); d != "" {
					t.Fatalf("RPC Config: %s differ", d)
				}
			default:
				op %= opMax
				var pk cipher.PubKey
				if f := rapid.IntRange(0, 3).Draw(t, "feed"); f < 3 {
					pk = keys[f].pk
				}
				var addr = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "address")
				var tcp = rapid.Bool().Draw(t, "tcp")
				if op == opRemoteFeeds && addr == 0 && ws[1].conn(ws[1].addr(0, tcp), tcp) == nil {
					c.Class("no such connection")
				}
				var res [2]string
				for i, w := range ws {
					pbt.Within(patience, opNames[op], func() { res[i] = w.do(op, pk, addr, tcp) })
				}
				c.Note("%s %d %v: %s", opNames[op], addr, tcp, res[1])
				if res[0] != res[1] {
					t.Fatalf("%s: RPC %q, local %q", opNames[op], res[0], res[1])
				}
				if strings.HasPrefix(res[0], "ok") {
					ok++
				} else {
					failed++
				}
				eventually(t, "state of the nodes after "+opNames[op], func() string {
					for _, w := range ws {
						if d := w.settled(); d != "" {
							return d
						}
					}
					if a, b := ws[0].state(), ws[1].state(); a != b {
						return fmt.Sprintf("by RPC %s, locally %s", a, b)
					}
					return ""
				})
			}
		}
		ws[0].reads(t)
		for _, w := range ws {
			w.x.checkBad(t)
			w.y.checkBad(t)
		}
		if ok > 0 && failed > 0 {
			c.NonTrivial()
		}
	})
}

// many clients at the same time
func TestN07Concurrent(t *testing.T) {
	pbt.Check(t, "clients", 300, 4000, func(t *rapid.T, c *pbt.Case) {
		var x, rc = newRPCNode(t, 0, nil)
		defer x.stop()
		defer rc.Close()
		var y = newNode(t, 1, nil)
		defer y.stop()
		var addr = x.n.Config().RPC
		var wg sync.WaitGroup
		var want = map[string]bool{}
		var n = rapid.IntRange(2, 5).Draw(t, "clients")
		for i := 0; i < n; i++ {
			var cl, err = node.NewRPCClient(addr)
			if err != nil {
				t.Fatalf("client: %v", err)
			}
			defer cl.Close()
			var pk = newID()
			var ops = rapid.SliceOfN(rapid.IntRange(0, 6), 1, 15).Draw(t, "ops")
			for _, op := range ops {
				if op < 2 {
					want[pk.Hex()] = op == 0
				}
			}
			c.Note("%v", ops)
			wg.Add(1)
			go func() {
				defer wg.Done()
				var fail = func(what string, err error) {
					if err != nil {
						x.fail("%s: %v", what, err)
					}
				}
				var sharing bool
				for _, op := range ops {
					switch op {
					case 0:
						fail("share", cl.Node().Share(pk))
						sharing = true
					case 1:
						fail("don't share", cl.Node().DontShare(pk))
						sharing = false
					case 2:
						var yep, err = cl.Node().IsSharing(pk)
						if fail("is sharing", err); yep != sharing {
							x.fail("IsSharing %v", yep)
						}
					case 3:
						var fs, err = cl.Node().Feeds()
						fail("feeds", err)
						var found bool
						for _, f := range fs {
							found = found || f == pk
						}
						if found != sharing {
							x.fail("feeds: %v", found)
						}
					case 4:
						fail("connect", cl.TCP().Connect(y.addr))
					case 5:
						var _, err = cl.Node().Connections()
						fail("connections", err)
					case 6:
						var _, err = cl.Node().Stat()
						fail("stat", err)
					}
				}
			}()
		}
		pbt.Within(patience, "RPC calls", wg.Wait)
		x.checkBad(t)
		for s, w := range want {
			if pk, _ := cipher.PubKeyFromHex(s); x.n.IsSharing(pk) != w {
				t.Fatalf("IsSharing %v, want %v", !w, w)
			}
		}
		c.NonTrivial()
	})
}
