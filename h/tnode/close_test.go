package tnode

import (
	"fmt"
	"net"
	rpc2 "net/rpc"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// freePort of loopback, probably free
func freePort() string {
	var l, err = net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		pbt.Infra(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// diskDB opens database in the directory
func diskDB(t failer, dir string) (d *testDB) {
	d = &testDB{disk: true}
	pbt.Within(patience, "opening of database (is it released?)", func() {
		var err error
		if d.cx, err = cxds.NewDriveCXDS(filepath.Join(dir, "c")); err != nil {
			t.Fatalf("open: %v", err)
		}
		if d.idx, err = idxdb.NewDriveIdxDB(filepath.Join(dir, "i")); err != nil {
			t.Fatalf("open: %v", err)
		}
	})
	return
}

// goroutines of the code under test, that are not in the old
func leaked(old map[string]bool) (now map[string]bool, trace string) {
	var buf = make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	now = map[string]bool{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		var id = strings.SplitN(g, " [", 2)[0]
		if strings.Contains(g, "github.com/skycoin/cxo/") && !strings.Contains(g, "tnode.leaked") && !old[id] {
			now[id] = true
			if trace == "" {
				trace = g
			}
		}
	}
	return
}

type closing struct {
	short bool // response timeout
	t     *rapid.T
	c     *pbt.Case
	x, y  *tnode // the first will be closed
	p     *pool
	ox    *owner
	oy    *owner
	rc    *node.RPCClient
	ls    []*rawListener
	raws  []*rawPeer

	wg    sync.WaitGroup
	stop  int32
	mx    sync.Mutex
	calls map[int]string // calls that don't return
	n     int
	saved []*registry.Root // by x
}

func (w *closing) note(format string, args ...interface{}) { w.c.Note(format, args...) }

// call something in background, it has to return
func (w *closing) call(what string, fn func()) {
	w.mx.Lock()
	w.n++
	var i = w.n
	w.calls[i] = what
	w.mx.Unlock()
	w.wg.Add(1)
	go func() {
		defer w.wg.Done()
		fn()
		w.mx.Lock()
		delete(w.calls, i)
		w.mx.Unlock()
	}()
}

func (w *closing) wait(what string) {
	var done = make(chan struct{})
	go func() { w.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
		w.mx.Lock()
		var calls = fmt.Sprint(w.calls)
		w.mx.Unlock()
		pbt.Hang(what+": "+calls, patience)
	}
}

// stuck peer accepts and answers nothing after handshake
func (w *closing) stuckPeer(answers int) {
	var p, err = dial(w.x.addr)
	if err != nil {
		w.t.Fatalf("dial: %v", err)
	}
	if _, err = p.shake(); err != nil {
		if w.short {
			return // it takes too long
		}
		w.t.Fatalf("handshake: %v", err)
	}
	var left = int32(answers)
	var a, b = w.p.leaf(60), w.p.leaf(70)
	var vs = vals{a: w.p.vals[a], b: w.p.vals[b]}
	p.on = func(p *rawPeer, in rawMsg) {
		switch m := in.m.(type) {
		case *msg.Sub:
			p.send(in.seq, &msg.Ok{})
		case *msg.RqObject:
			if atomic.AddInt32(&left, -1) >= 0 {
				if val, ok := vs[m.Key]; ok {
					p.send(in.seq, &msg.Object{Value: val})
				}
			}
		}
	}
	p.loop()
	w.raws = append(w.raws, p)
	// a root that can't be filled
	var refs = []registry.Dynamic{w.p.dynamicOf(a), w.p.dynamicOf(b)}
	var r = &registry.Root{Pub: keys[2].pk, Nonce: uint64(len(w.raws)), Refs: refs, Reg: regs[0].Reference(), Time: int64(len(w.raws))}
	var seq = p.send(0, &msg.Sub{Feed: keys[2].pk})
	eventually(w.t, "subscription", func() string {
		if _, ok := p.find(func(in rawMsg) bool { return in.rseq == seq }); !ok {
			return "no response"
		}
		return ""
	})
	p.send(0, signRoot(r, 2))
}

// failingStart tries to create a node, which can't listen; such
// a node must not keep anything: neither addresses, nor database
func (w *closing) failingStart(db *testDB, dir string, rpc bool) *testDB {
	var y = newNode(w.t, 1, nil)
	defer y.stop()
	var x = &tnode{i: 0, db: db, addr: newAddr(), udp: newAddr(), open: map[*node.Conn]int{}}
	var what = rapid.IntRange(0, 3).Draw(w.t, "what fails")
	w.note("failing start %d", what)
	var n, err = x.start(func(conf *node.Config) {
		switch what {
		case 0:
			conf.TCP.Listen = y.addr
		case 1:
			conf.UDP.Listen = y.udp
		case 2:
			conf.RPC = "127.0.0.1:99999"
		case 3:
			for i := range conf.SecKey {
				conf.SecKey[i] = 0xff
			}
		}
	})
	if err == nil {
		w.t.Fatalf("a node that can't start (%d) is started: %v", what, n)
	}
	if what != 0 {
		if p, err := dial(x.addr); err == nil {
			w.t.Fatalf("a node that is not started (%d) is listening: %v", what, p)
		}
	}
	if db.cxc == 0 || db.idc == 0 {
		w.t.Fatalf("node that is not started (%d): CXDS is closed %d times, IdxDB is closed %d times", what, db.cxc, db.idc)
	}
	return diskDB(w.t, dir)
}

func TestN08(t *testing.T) {
	pbt.Check(t, "close", 150, 3000, func(t *rapid.T, c *pbt.Case) {
		var dir, err = os.MkdirTemp(pbt.Scratch(), "n08")
		if err != nil {
			pbt.Infra(err)
		}
		defer os.RemoveAll(dir)
		var old, _ = leaked(nil)
		var w = &closing{t: t, c: c, p: newPool(), calls: map[int]string{}}
		var timeout = rapid.SampledFrom([]time.Duration{0, time.Hour, 20 * time.Millisecond}).Draw(t, "response timeout")
		w.short = timeout > 0 && timeout < time.Second
		var db = diskDB(t, dir)
		var rpc = freePort()
		var withRPC = rapid.Bool().Draw(t, "rpc")
		var open = func() {
			w.x = &tnode{i: 0, db: db, addr: newAddr(), udp: newAddr(), open: map[*node.Conn]int{}}
			var err error
			w.x.n, err = w.x.start(func(conf *node.Config) {
				conf.TCP.ResponseTimeout = timeout
				conf.UDP.ResponseTimeout = timeout
				conf.TCP.Pings = rapid.SampledFrom([]time.Duration{0, time.Millisecond, time.Minute}).Draw(t, "pings")
				if withRPC {
					conf.RPC = rpc
				}
			})
			if err != nil && withRPC && strings.Contains(err.Error(), "address already in use") {
				t.Skip("the port is used")
			}
			if err != nil {
				t.Fatalf("new node: %v", err)
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "failing start") == 0 {
			db = w.failingStart(db, dir, withRPC)
		}
		open()
		w.y = newNode(t, 1, nil)
		var swarm *node.Swarm
		for _, f := range []int{0, 1, 2} {
			if err := w.x.n.Share(keys[f].pk); err != nil {
				t.Fatalf("share: %v", err)
			}
		}
		w.ox = newOwner(t, w.x, keys[0])
		w.oy = newOwner(t, w.y, keys[1])
		if err := w.y.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		var xy *node.Conn
		for k := rapid.IntRange(0, 14).Draw(t, "acts"); k > 0; k-- {
			switch rapid.IntRange(0, 13).Draw(t, "act") {
			case 0, 1:
				if xy == nil {
					w.note("connect")
					if swarm == nil && !w.short {
						xy = link(t, w.x, w.y)
					} else if c, err := w.x.n.TCP().Connect(w.y.addr); err == nil {
						xy = c // otherwise the swarm connects now, or the peer has a closing connection, or it takes too long
					}
				}
			case 2:
				if xy != nil {
					w.note("subscribe")
					w.call("Subscribe", func() { xy.Subscribe(keys[1].pk) })
				}
			case 3:
				w.note("publish")
				var r = w.oy.save(t, w.p, uint64(rapid.IntRange(1, 2).Draw(t, "head")), drawRefs(t, w.p, 4))
				w.y.n.Publish(r)
			case 4:
				w.note("save")
				var r = w.ox.save(t, w.p, uint64(rapid.IntRange(1, 2).Draw(t, "head")), drawRefs(t, w.p, 4))
				w.saved = append(w.saved, r)
				w.x.n.Publish(r)
			case 5:
				var n = rapid.IntRange(0, 2).Draw(t, "answers")
				w.note("stuck peer %d", n)
				w.stuckPeer(n)
			case 6:
				w.note("silent peer")
				var p, err = dial(w.x.addr)
				if err != nil {
					t.Fatalf("dial: %v", err)
				}
				w.raws = append(w.raws, p)
			case 7:
				w.note("connect to silent")
				var l = listenRaw(t)
				w.ls = append(w.ls, l)
				for n := rapid.IntRange(1, 2).Draw(t, "callers"); n > 0; n-- {
					w.call("Connect", func() { w.x.n.TCP().Connect(l.addr) })
				}
			case 8:
				w.note("requests")
				for _, c := range w.x.n.Connections() {
					w.call("RemoteFeeds", func() { c.RemoteFeeds() })
					w.call("Subscribe", func() { c.Subscribe(keys[2].pk) })
					w.call("Preview", func() {
						c.Preview(keys[2].pk, func(registry.Pack, *registry.Root) bool { return true })
					})
				}
			case 9:
				w.note("swarm")
				if swarm, err = w.x.n.JoinSwarm(keys[2].pk, node.SwarmConfig{RequestPeerRate: time.Millisecond,
					ClearOldPeersRate: time.Millisecond, OutgoingConnRate: time.Millisecond}); err != nil {
					t.Fatalf("swarm: %v", err)
				}
				swarm.AddPeer(newID(), nil, w.y.addr, "")
				if len(w.ls) > 0 {
					swarm.AddPeer(newID(), nil, w.ls[0].addr, "")
				}
			case 10:
				w.note("unsubscribe")
				for _, c := range w.x.n.Connections() {
					w.call("Unsubscribe", func() { c.Unsubscribe(keys[1].pk) })
				}
			case 11:
				w.note("don't share")
				w.call("DontShare", func() { w.x.n.DontShare(keys[2].pk); w.x.n.Share(keys[2].pk) })
			case 12:
				w.note("disconnect")
				for _, c := range w.x.n.Connections() {
					w.call("Close of connection", func() { c.Close() })
					break
				}
			case 13:
				w.note("wait")
				time.Sleep(time.Duration(rapid.IntRange(1, 3000).Draw(t, "us")) * time.Microsecond)
			}
		}
		var rcs []*node.RPCClient
		for k := rapid.IntRange(0, 2).Draw(t, "RPC clients"); withRPC && k > 0; k-- {
			var rc, err = node.NewRPCClient(rpc)
			if err != nil {
				t.Fatalf("RPC client: %v", err)
			}
			rcs = append(rcs, rc)
			var id, e = rc.TCP().Address()
			if e != nil || id != w.x.addr {
				t.Fatalf("RPC: %v", e)
			}
			var what = rapid.IntRange(0, 3).Draw(t, "calls")
			w.note("RPC %d", what)
			w.call("RPC calls", func() {
				for i := 0; atomic.LoadInt32(&w.stop) == 0; i++ {
					var err error
					switch what {
					case 0:
						return // idle client
					case 1:
						_, err = rc.Root().Last(keys[0].pk)
					case 2:
						err = rc.TCP().Connect(w.y.addr)
					case 3:
						_, err = rc.TCP().RemoteFeeds(w.y.addr)
					}
					if _, ok := err.(rpc2.ServerError); err != nil && !ok {
						return
					}
				}
			})
		}
		// something that does not end itself
		for k := rapid.IntRange(0, 3).Draw(t, "loops"); k > 0; k-- {
			var what = rapid.IntRange(0, 4).Draw(t, "loop")
			w.note("loop %d", what)
			w.call(fmt.Sprintf("loop %d", what), func() {
				for i := 0; atomic.LoadInt32(&w.stop) == 0; i++ {
					switch what {
					case 0:
						if _, err := w.x.n.TCP().Connect(w.y.addr); err != nil {
							time.Sleep(100 * time.Microsecond)
						}
					case 1:
						if c, err := w.y.n.TCP().Connect(w.x.addr); err == nil {
							c.Subscribe(keys[0].pk)
							c.Close()
						}
					case 2:
						var pk, _ = cipher.MustGenerateDeterministicKeyPair([]byte{byte(i), byte(i >> 8)})
						w.x.n.Share(pk)
						w.x.n.DontShare(pk)
					case 3:
						w.x.n.Feeds()
						w.x.n.Connections()
						w.x.n.ConnectionsOfFeed(keys[1].pk)
						w.x.n.IsSharing(keys[1].pk)
						w.x.n.Publish(&registry.Root{Pub: keys[1].pk})
					case 4:
						w.x.n.JoinSwarm(keys[i%3].pk, node.SwarmConfig{RequestPeerRate: time.Millisecond})
						w.x.n.LeaveSwarm(keys[i%3].pk)
					}
				}
			})
		}
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 10, 50, 100, 300, 1000, 3000}).Draw(t, "before us")) * time.Microsecond)

		// close
		var closers = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "closers")
		var errs = make(chan error, closers)
		for i := 0; i < closers; i++ {
			w.call("Close", func() { errs <- w.x.n.Close() })
		}
		var done = time.Now().Add(patience)
		for i := 0; i < closers; i++ {
			select {
			case err := <-errs:
				if err != nil {
					t.Fatalf("Close: %v", err)
				}
			case <-time.After(time.Until(done)):
				pbt.Hang("Close of node", patience)
			}
		}
		if atomic.LoadInt32(&db.cxc) == 0 || atomic.LoadInt32(&db.idc) == 0 {
			t.Fatalf("CXDS is closed %d times, IdxDB is closed %d times", db.cxc, db.idc)
		}
		// nothing is used after
		time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(t, "after us")) * time.Microsecond)
		atomic.StoreInt32(&w.stop, 1)
		w.wait("calls after Close")

		// everything is closed
		for _, p := range w.raws {
			if p.reader == 1 {
				eventually(t, "closing of connection", func() string {
					if !p.isClosed() {
						return "a peer is still connected"
					}
					return ""
				})
				continue
			}
			p.ended(t, "pending connection is not closed")
		}
		for _, l := range w.ls {
			for len(l.acc) > 0 {
				(<-l.acc).ended(t, "outgoing connection is not closed")
			}
		}
		eventually(t, "closing of connections", func() string {
			if n := len(w.x.n.Connections()); n != 0 {
				return fmt.Sprintf("closed node has %d connections", n)
			}
			for _, c := range w.y.n.Connections() {
				if c.PeerID() == w.x.n.ID() {
					return "the peer is connected to closed node"
				}
			}
			w.x.mx.Lock()
			defer w.x.mx.Unlock()
			if w.x.conns != w.x.disc {
				return fmt.Sprintf("OnConnect %d, OnDisconnect %d", w.x.conns, w.x.disc)
			}
			return ""
		})
		for _, rc := range rcs {
			pbt.Within(patience, "RPC of closed node", func() {
				if fs, err := rc.Node().Feeds(); err == nil {
					t.Fatalf("RPC of closed node: %s", feedNames(fs))
				}
			})
			rc.Close()
		}
		if p, err := dial(w.x.addr); err == nil {
			t.Fatalf("closed node is listening: %v", p)
		}
		// closed node
		pbt.Within(patience, "methods of closed node", func() {
			var n = w.x.n
			if _, err := n.TCP().Connect(w.y.addr); err == nil {
				t.Fatalf("closed node connects")
			}
			n.UDP().Connect(w.y.udp)
			n.Share(keys[3].pk)
			n.DontShare(keys[0].pk)
			n.Feeds()
			n.IsSharing(keys[0].pk)
			n.Publish(&registry.Root{Pub: keys[1].pk})
			n.ConnectionsOfFeed(cipher.PubKey{})
			n.LeaveSwarm(keys[2].pk)
			if _, err := n.JoinSwarm(keys[0].pk, node.SwarmConfig{}); err == nil {
				t.Fatalf("closed node joins a swarm")
			}
			if err := n.Close(); err != nil {
				t.Fatalf("second Close: %v", err)
			}
			if xy != nil {
				xy.Close()
				if err := xy.Subscribe(keys[1].pk); err == nil {
					t.Fatalf("closed connection subscribes")
				}
				if _, err := xy.RemoteFeeds(); err == nil {
					t.Fatalf("closed connection requests")
				}
			}
		})
		w.x.checkBad(t)

		// the data are intact
		db = diskDB(t, dir)
		var z = &tnode{i: 0, db: db}
		authentic(t, z)
		if timeout > 0 {
			timeout = time.Hour // the exchange must not depend on load
		}
		open()
		for _, r := range w.saved {
			var got, err = w.x.n.Container().Root(r.Pub, r.Nonce, r.Seq)
			if err != nil || got.Hash != r.Hash {
				t.Fatalf("saved root %d/%d: %v", r.Nonce, r.Seq, err)
			}
			complete(t, w.x, r.Refs, w.p.vals)
		}
		for nonce := uint64(1); nonce <= 2; nonce++ {
			if r, err := w.x.n.Container().LastRoot(keys[1].pk, nonce); err == nil {
				complete(t, w.x, r.Refs, w.p.vals)
			}
		}
		// and useful
		if rapid.Bool().Draw(t, "continue") {
			var xy = link(t, w.x, w.y)
			w.x.n.Share(keys[1].pk)
			subscribed(t, xy, 1)
			var r = w.oy.save(t, w.p, 1, drawRefs(t, w.p, 2))
			w.y.n.Publish(r)
			eventually(t, "exchange after restart", func() string {
				var last, err = w.x.n.Container().LastRoot(keys[1].pk, 1)
				if err != nil {
					return fmt.Sprintf("%v %v", err, w.x.broken())
				}
				if last.Hash != r.Hash {
					return fmt.Sprintf("%d, want %d %v", last.Seq, r.Seq, w.x.broken())
				}
				return ""
			})
			complete(t, w.x, r.Refs, w.p.vals)
		}
		pbt.Within(patience, "Close of node", func() { w.x.n.Close() })
		w.y.stop()
		for _, p := range w.raws {
			p.close()
		}
		for _, l := range w.ls {
			l.f.Close()
		}
		eventually(t, "goroutines end", func() string {
			if now, s := leaked(old); len(now) != 0 {
				return fmt.Sprintf("%d goroutines: %s", len(now), s)
			}
			return ""
		})
		if len(w.raws) > 0 || xy != nil {
			c.NonTrivial()
		}
	})
}
