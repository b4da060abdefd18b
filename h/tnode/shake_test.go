package tnode

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

func (x *tnode) peerIDs() string {
	var ss []string
	for _, c := range x.n.Connections() {
		ss = append(ss, c.PeerID().Hex())
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func rawIDs(ps []*rawPeer) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, p.id.Hex())
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// ended waits until the node closes the connection, returning messages
func (p *rawPeer) ended(t failer, what string) (ms []rawMsg) {
	for {
		var in, ok, err = p.read(patience)
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		if !ok {
			return
		}
		ms = append(ms, in)
	}
}

// admission is a node and the model of its limits
type admission struct {
	t        *rapid.T
	x        *tnode
	rt       time.Duration
	mc, mp   int
	est      []*rawPeer
	pend     []*rawPeer
	unsure   int // closed by peers, the node learns later
	conns    int
	log      []string
	c        *pbt.Case
	accepted int
	refused  int
	fresh    bool              // a handshake has just ended
	doubt    map[*rawPeer]bool // can be refused
}

func (a *admission) note(format string, args ...interface{}) {
	a.c.Note(format, args...)
	a.log = append(a.log, fmt.Sprintf(format, args...))
}

func (a *admission) full() bool {
	return a.mc > 0 && len(a.est)+len(a.pend) >= a.mc || a.mp > 0 && len(a.pend) >= a.mp
}

func (a *admission) dial() *rawPeer {
	var p, err = dial(a.x.addr)
	if err != nil {
		a.t.Fatalf("dial: %v", err)
	}
	return p
}

func (a *admission) check() {
	eventually(a.t, "connections are what was admitted", func() string {
		if g, w := a.x.peerIDs(), rawIDs(a.est); g != w {
			return fmt.Sprintf("%d connections, want %d (%s, %s)", len(a.x.n.Connections()), len(a.est), g, w)
		}
		a.x.mx.Lock()
		defer a.x.mx.Unlock()
		if a.x.conns != a.conns || a.x.conns-a.x.disc != len(a.est) {
			return fmt.Sprintf("OnConnect %d, OnDisconnect %d, want %d, %d connections", a.x.conns, a.x.disc, a.conns, len(a.est))
		}
		return ""
	})
	a.x.checkBad(a.t)
}

// good peer connects
func (a *admission) good(id cipher.PubKey) {
	var full = a.full()
	var err error
	for dl := time.Now().Add(patience); ; {
		var p = a.dial()
		p.id = id
		var got cipher.PubKey
		if got, err = p.shake(); err == nil {
			if got != a.x.n.ID() {
				a.t.Fatalf("the node introduces itself as %s", got.Hex())
			}
			if a.prune(); full && a.full() {
				a.t.Fatalf("accepted over the limits (%d, %d): %d, %d", a.mc, a.mp, len(a.est), len(a.pend))
			}
			a.est = append(a.est, p)
			a.conns++
			a.accepted++
			break
		}
		p.ended(a.t, "refused connection is not closed")
		p.close()
		if full {
			a.refused++
			return
		}
		// the node can count ended handshakes and closed connections yet
		if time.Now().After(dl) {
			a.t.Fatalf("not accepted (limits %d, %d): %d, %d: %v", a.mc, a.mp, len(a.est), len(a.pend), err)
		}
		time.Sleep(time.Millisecond)
	}
	a.unsure, a.fresh = 0, true
}

// prune silent connections that were refused because of connections whose
// closing the node had not noticed
func (a *admission) prune() {
	var pend []*rawPeer
	for _, p := range a.pend {
		select {
		case _, ok := <-p.c.GetChanIn():
			if ok {
				a.t.Fatalf("message to a silent peer")
			}
			if !a.doubt[p] {
				a.t.Fatalf("silent connection is closed")
			}
			a.note("was refused")
		default:
			pend = append(pend, p)
		}
	}
	a.pend = pend
}

// refuse performs handshake that has to be refused
func (a *admission) refuse(what string, id cipher.PubKey, first func(p *rawPeer) (seq uint32), wantErr bool) {
	if a.full() {
		return
	}
	for try := 0; ; try++ {
		var p = a.dial()
		p.id = id
		var seq = first(p)
		var ms = p.ended(a.t, what+": the connection is not closed")
		p.close()
		if len(ms) == 0 && wantErr && try < 10000 {
			time.Sleep(time.Millisecond)
			continue // a limit
		}
		a.refused++
		if wantErr {
			if len(ms) != 1 || ms[0].rseq != seq {
				a.t.Fatalf("%s: %v", what, ms)
			}
			if e, ok := ms[0].m.(*msg.Err); !ok || e.Err == "" {
				a.t.Fatalf("%s: %T", what, ms[0].m)
			}
			return
		}
		for _, in := range ms {
			if _, ok := in.m.(*msg.Err); !ok {
				a.t.Fatalf("%s: %T", what, in.m)
			}
		}
		return
	}
}

// silent peer takes its place; that can be seen only through limits
func (a *admission) silent() {
	for dl := time.Now().Add(patience); ; {
		var p = a.dial()
		a.pend = append(a.pend, p)
		a.doubt[p] = a.fresh
		time.Sleep(2 * time.Millisecond)
		if !a.full() {
			return
		}
		for {
			var q = a.dial()
			q.id = newID()
			var _, err = q.shake()
			if err != nil {
				q.close()
				break
			}
			// not noticed yet
			a.conns++
			a.accepted++
			q.close()
			a.check()
			if time.Now().After(dl) {
				a.t.Fatalf("silent connection does not take its place")
			}
		}
		// the place of the silent one could be taken by other
		select {
		case _, ok := <-p.c.GetChanIn():
			if ok {
				a.t.Fatalf("message to a silent peer")
			}
			p.close()
			a.pend = a.pend[:len(a.pend)-1]
			a.check()
		case <-time.After(2 * time.Millisecond):
			return
		}
	}
}

func syn(version uint16) func(p *rawPeer) uint32 {
	return func(p *rawPeer) uint32 { return p.send(0, &msg.Syn{Protocol: version, NodeID: p.id}) }
}

func TestN05Accept(t *testing.T) {
	pbt.Check(t, "accept", 300, 4000, func(t *rapid.T, c *pbt.Case) {
		var a = &admission{t: t, c: c, doubt: map[*rawPeer]bool{}}
		a.mc = rapid.IntRange(0, 4).Draw(t, "max connections")
		a.mp = rapid.IntRange(0, 3).Draw(t, "max pending")
		a.rt = rapid.SampledFrom([]time.Duration{0, 0, 30 * time.Millisecond}).Draw(t, "timeout")
		if a.rt > 0 {
			a.rt = time.Hour // silent peers stay pending
		}
		a.x = newNode(t, 0, func(conf *node.Config) {
			conf.MaxConnections = a.mc
			conf.MaxPendingConnections = a.mp
			conf.TCP.ResponseTimeout = a.rt
		})
		a.note("limits %d, %d, timeout %v", a.mc, a.mp, a.rt)
		defer func() {
			for _, p := range append(a.est, a.pend...) {
				p.close()
			}
			a.x.stop()
			if t.Failed() {
				t.Logf("history: %s", strings.Join(a.log, "; "))
			}
		}()
		for k := rapid.IntRange(3, 25).Draw(t, "attempts"); k > 0; k-- {
			var op = rapid.IntRange(0, 13).Draw(t, "attempt")
			switch {
			case op < 4:
				a.note("good")
				a.good(newID())
			case op < 5:
				if len(a.est) > 0 {
					a.note("same id")
					a.refuse("second connection with the same peer", pick(t, "of", a.est).id, syn(msg.Version), true)
				}
			case op < 6:
				a.note("own id")
				a.refuse("connection with itself", a.x.n.ID(), syn(msg.Version), true)
			case op < 7:
				a.note("blank id")
				a.refuse("blank id", cipher.PubKey{}, syn(msg.Version), true)
			case op < 8:
				var v = msg.Version + rapid.SampledFrom([]uint16{1, 0xffff, 256, 100}).Draw(t, "version")
				a.note("version %d", v)
				var id = newID()
				a.refuse("another version", id, syn(v), true)
				a.note("good after it")
				a.good(id)
			case op < 9:
				var ms = []msg.Msg{&msg.Ack{NodeID: newID()}, &msg.Ok{}, &msg.Sub{Feed: keys[0].pk}, &msg.Ping{}, &msg.Object{}, &msg.Err{Err: "no"}, &msg.RqList{}}
				var m = pick(t, "first", ms)
				a.note("first is %T", m)
				a.refuse("wrong first message", newID(), func(p *rawPeer) uint32 { return p.send(0, m) }, false)
			case op < 10:
				var b = rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(t, "bytes")
				if rapid.Bool().Draw(t, "cut") {
					b = frame(1, 0, (&msg.Syn{Protocol: msg.Version, NodeID: newID()}).Encode())
					b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "length")]
				}
				a.note("bytes %x", b)
				a.refuse("garbage", newID(), func(p *rawPeer) uint32 { p.raw(b); return 0 }, false)
			case op < 11:
				a.note("silent")
				if a.full() {
					var p = a.dial()
					p.ended(t, "connection over the limits is not closed")
					p.close()
					continue
				}
				if a.unsure > 0 {
					continue
				}
				a.silent()
			case op < 12:
				if len(a.pend) > 0 {
					var p = a.pend[0]
					a.pend = a.pend[1:]
					if rapid.Bool().Draw(t, "continues") {
						a.note("silent peer shakes hands")
						if _, err := p.shake(); err != nil {
							if _, ok, _ := p.read(0); !ok && a.doubt[p] {
								break // was refused
							}
							t.Fatalf("handshake of pending connection: %v", err)
						}
						a.est = append(a.est, p)
						a.conns++
						a.accepted++
					} else {
						a.note("silent peer closes")
						p.close()
						a.unsure++
					}
				}
			default:
				if len(a.est) > 0 {
					var i = rapid.IntRange(0, len(a.est)-1).Draw(t, "closes")
					a.note("peer closes")
					a.est[i].close()
					a.est = append(a.est[:i:i], a.est[i+1:]...)
				}
			}
			a.check()
		}
		// everything is released: the limit can be reached again
		for len(a.pend) > 0 {
			a.pend[0].close()
			a.pend = a.pend[1:]
			a.unsure++
		}
		for k := 0; k < 5; k++ {
			a.good(newID())
		}
		a.check()
		if a.accepted > 0 && a.refused > 0 {
			c.NonTrivial()
		}
	})
}

// rawListener answers handshakes of a node
type rawListener struct {
	f    *factory.TCPFactory
	addr string
	acc  chan *rawPeer
}

func listenRaw(t failer) (l *rawListener) {
	l = &rawListener{f: factory.NewTCPFactory(), addr: newAddr(), acc: make(chan *rawPeer, 100)}
	l.f.AcceptedCallback = func(c *factory.Connection) {
		l.acc <- &rawPeer{f: l.f, c: c, id: newID(), wake: make(chan struct{}, 1)}
	}
	if err := l.f.Listen(l.addr); err != nil {
		t.Fatalf("listen: %v", err)
	}
	return
}

func (l *rawListener) accept(t failer) (p *rawPeer) {
	select {
	case p = <-l.acc:
	case <-time.After(patience):
		t.Fatalf("the node does not connect")
	}
	return
}

func TestN05Connect(t *testing.T) {
	pbt.Check(t, "connect", 400, 5000, func(t *rapid.T, c *pbt.Case) {
		var rt = rapid.SampledFrom([]time.Duration{0, 0, 30 * time.Millisecond, time.Hour, time.Hour}).Draw(t, "timeout")
		var x = newNode(t, 0, func(conf *node.Config) { conf.TCP.ResponseTimeout = rt })
		var est []*rawPeer
		var ls []*rawListener
		var log []string
		defer func() {
			for _, l := range ls {
				l.f.Close()
			}
			x.stop()
			if t.Failed() {
				t.Logf("history: %s", strings.Join(log, "; "))
			}
		}()
		var conns int
		var attempts = 8
		if rt == 30*time.Millisecond {
			attempts = 2
		}
		for k := rapid.IntRange(1, attempts).Draw(t, "attempts"); k > 0; k-- {
			var l = listenRaw(t)
			ls = append(ls, l)
			var answer = rapid.IntRange(0, 12).Draw(t, "answer")
			if len(est) == 0 && answer == 5 || rt == 0 && answer == 10 {
				answer = 0
			}
			if rt > 0 && rt < time.Second && answer != 10 {
				answer = 10
			}
			var callers = rapid.IntRange(1, 3).Draw(t, "callers")
			log = append(log, fmt.Sprintf("answer %d callers %d", answer, callers))
			c.Note("answer %d callers %d", answer, callers)
			type result struct {
				c   *node.Conn
				err error
				d   time.Duration
			}
			var res = make(chan result, callers)
			for i := 0; i < callers; i++ {
				go func() {
					var st = time.Now()
					var c, err = x.n.TCP().Connect(l.addr)
					res <- result{c, err, time.Since(st)}
				}()
			}
			// every handshake gets the same answer
			var good = answer == 0 || answer > 10
			var other = rapid.SampledFrom([]msg.Msg{&msg.Ok{}, &msg.Syn{Protocol: msg.Version, NodeID: newID()}, &msg.Pong{}, &msg.List{}}).Draw(t, "other")
			var garbage = rapid.SliceOfN(rapid.Byte(), 0, 45).Draw(t, "bytes")
			var wg sync.WaitGroup
			var mx sync.Mutex
			var fails []string
			var main *rawPeer // the last that shakes hands
			var stopq, doneq = make(chan struct{}), make(chan struct{})
			var handle = func(p *rawPeer) {
				defer wg.Done()
				var b, ok = <-p.c.GetChanIn()
				if !ok {
					return // is not used
				}
				var want = frame(0, 0, (&msg.Syn{Protocol: msg.Version, NodeID: x.n.ID()}).Encode())
				mx.Lock()
				if len(b) < 9 || string(b[4:]) != string(want[4:]) {
					fails = append(fails, fmt.Sprintf("first message %x, want %x", b, want))
				}
				if good && main != nil {
					fails = append(fails, "second handshake with one address")
				}
				main = p
				mx.Unlock()
				if len(b) < 4 {
					p.close()
					return
				}
				var seq = binary.LittleEndian.Uint32(b)
				switch answer {
				default:
					p.send(seq, &msg.Ack{NodeID: p.id})
					return
				case 1:
					p.send(seq+1, &msg.Ack{NodeID: p.id})
				case 2:
					p.send(0, &msg.Ack{NodeID: p.id})
				case 3:
					p.send(seq, &msg.Ack{NodeID: x.n.ID()})
				case 4:
					p.send(seq, &msg.Ack{})
				case 5:
					p.send(seq, &msg.Ack{NodeID: est[0].id})
				case 6:
					p.send(seq, &msg.Err{Err: "no place"})
				case 7:
					p.send(seq, other)
				case 8:
					p.raw(garbage)
				case 9:
					p.c.Close()
				case 10: // nothing
					if rt == time.Hour {
						p.c.Close()
					}
				}
				select {
				case b, ok := <-p.c.GetChanIn():
					if ok {
						mx.Lock()
						fails = append(fails, fmt.Sprintf("message %x after failed handshake", b))
						mx.Unlock()
					}
				case <-time.After(patience):
					mx.Lock()
					fails = append(fails, "connection after failed handshake is not closed")
					mx.Unlock()
				}
			}
			go func() {
				defer close(doneq)
				for {
					select {
					case p := <-l.acc:
						wg.Add(1)
						go handle(p)
					case <-stopq:
						return
					}
				}
			}()
			var first *node.Conn
			for i := 0; i < callers; i++ {
				var r result
				select {
				case r = <-res:
				case <-time.After(patience):
					t.Fatalf("Connect does not return")
				}
				if good != (r.err == nil) {
					t.Fatalf("answer %d: %v", answer, r.err)
				}
				if answer == 6 && !strings.Contains(r.err.Error(), "no place") {
					t.Fatalf("reason is not told: %v", r.err)
				}
				if answer == 10 && rt < time.Second && i == 0 && r.d < rt*9/10 {
					t.Fatalf("time-out after %v, want %v", r.d, rt)
				}
				if r.err == nil {
					if i > 0 && first != r.c {
						t.Fatalf("Connect returns two connections with one address")
					}
					first = r.c
					mx.Lock()
					var id = main.id
					mx.Unlock()
					if r.c.PeerID() != id || !r.c.IsOutgoing() || r.c.Address() != l.addr {
						t.Fatalf("wrong connection")
					}
				}
			}
			if !good {
				time.Sleep(time.Millisecond)
			}
			close(stopq)
			<-doneq
			for len(l.acc) > 0 {
				wg.Add(1)
				go handle(<-l.acc)
			}
			pbt.Within(patience+5*time.Second, "closing of connections that are not used", wg.Wait)
			if len(fails) > 0 {
				t.Fatalf("answer %d: %s", answer, strings.Join(fails, "; "))
			}
			if good {
				est = append(est, main)
				conns++
			}
			eventually(t, "connections", func() string {
				if g, w := x.peerIDs(), rawIDs(est); g != w {
					return fmt.Sprintf("%s, want %s", g, w)
				}
				x.mx.Lock()
				defer x.mx.Unlock()
				if x.conns != conns || x.disc != 0 {
					return fmt.Sprintf("OnConnect %d, OnDisconnect %d, want %d", x.conns, x.disc, conns)
				}
				return ""
			})
			if !good && rapid.Bool().Draw(t, "again") && rt != 30*time.Millisecond {
				// nothing is left
				go func() {
					var c, err = x.n.TCP().Connect(l.addr)
					res <- result{c, err, 0}
				}()
				var p = l.accept(t)
				var in, ok, err = p.read(patience)
				for !ok && err == nil { // was not used
					p = l.accept(t)
					in, ok, err = p.read(patience)
				}
				if err != nil || !ok {
					t.Fatalf("no handshake: %v", err)
				}
				p.send(in.seq, &msg.Ack{NodeID: p.id})
				if r := <-res; r.err != nil {
					t.Fatalf("after failed handshake: %v", r.err)
				}
				est = append(est, p)
				conns++
			}
			if answer > 0 {
				c.NonTrivial()
			}
		}
	})
}

// requests end with answer, error or time-out
func TestN05Request(t *testing.T) {
	pbt.Check(t, "request", 300, 4000, func(t *rapid.T, c *pbt.Case) {
		var rt = rapid.SampledFrom([]time.Duration{0, 0, 30 * time.Millisecond, time.Hour, time.Hour}).Draw(t, "timeout")
		var x = newNode(t, 0, func(conf *node.Config) { conf.TCP.ResponseTimeout = rt })
		defer x.stop()
		var p, err = dial(x.addr)
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer p.close()
		if _, err = p.shake(); err != nil {
			if rt > 0 && rt < time.Second {
				t.Skip("the handshake takes too long")
			}
			t.Fatalf("shake: %v", err)
		}
		var conn *node.Conn
		eventually(t, "connection", func() string {
			if cs := x.n.Connections(); len(cs) == 1 {
				conn = cs[0]
				return ""
			}
			return "none"
		})
		var requests = make(chan rawMsg, 100)
		p.on = func(p *rawPeer, in rawMsg) {
			switch in.m.(type) {
			case *msg.Unsub, *msg.Root:
			case *msg.RqObject: // the only object
				p.send(in.seq, &msg.Object{Value: regs[0].Encode()})
			default:
				requests <- in
			}
		}
		p.loop()
		var closed bool
		for k := rapid.IntRange(1, 5).Draw(t, "requests"); k > 0 && !closed; k-- {
			var what = rapid.IntRange(0, 2).Draw(t, "request")
			var answer = rapid.IntRange(0, 6).Draw(t, "answer")
			var short = rt > 0 && rt < time.Second
			if short && answer != 0 {
				answer = 5 // silence
			}
			if answer == 5 && !short {
				answer = 6
			}
			c.Note("request %d answer %d timeout %v", what, answer, rt)
			var res = make(chan error, 1)
			var took time.Duration
			var feeds []cipher.PubKey
			go func() {
				var err error
				var st = time.Now()
				switch what {
				case 0:
					err = conn.Subscribe(keys[0].pk)
				case 1:
					feeds, err = conn.RemoteFeeds()
				case 2:
					err = conn.Preview(keys[0].pk, func(registry.Pack, *registry.Root) bool { return false })
				}
				took = time.Since(st)
				res <- err
			}()
			var in rawMsg
			select {
			case in = <-requests:
			case <-time.After(patience):
				t.Fatalf("request is not sent")
			}
			var r = signRoot(&registry.Root{Pub: keys[0].pk, Nonce: 1, Reg: regs[0].Reference()}, 0)
			var right = []msg.Msg{&msg.Ok{}, &msg.List{Feeds: []cipher.PubKey{keys[1].pk}}, r}
			var types = []string{"*msg.Sub", "*msg.RqList", "*msg.RqPreview"}
			if got := fmt.Sprintf("%T", in.m); got != types[what] {
				t.Fatalf("%s is sent, want %s", got, types[what])
			}
			switch answer {
			case 0, 1:
				p.send(in.seq, right[what])
				if answer == 1 {
					p.send(in.seq, &msg.Err{Err: "late"})
				}
			case 2:
				p.send(in.seq, &msg.Err{Err: "because"})
			case 3:
				p.send(in.seq, right[(what+1)%3])
			case 4:
				p.send(in.seq+100, &msg.Err{Err: "not this one"})
				p.send(in.seq, right[what])
			case 6:
				p.c.Close()
				closed = true
			}
			var e error
			select {
			case e = <-res:
			case <-time.After(patience):
				t.Fatalf("request %d does not end, answer %d", what, answer)
			}
			switch answer {
			case 0, 1, 4:
				if short && e == node.ErrTimeout {
					break // slow
				}
				if e != nil {
					t.Fatalf("request %d: %v", what, e)
				}
				if what == 1 && (len(feeds) != 1 || feeds[0] != keys[1].pk) {
					t.Fatalf("feeds: %v", feeds)
				}
			case 2:
				if e == nil || !strings.Contains(e.Error(), "because") {
					t.Fatalf("request %d: %v, want error of the peer", what, e)
				}
				c.NonTrivial()
			case 3:
				if e == nil {
					t.Fatalf("request %d succeeds with wrong answer", what)
				}
				c.NonTrivial()
			case 5:
				if e != node.ErrTimeout || took < rt*9/10 {
					t.Fatalf("request %d: %v after %v, want time-out after %v", what, e, took, rt)
				}
				c.NonTrivial()
			case 6:
				if e == nil || e == node.ErrTimeout {
					t.Fatalf("request %d: %v, want %v", what, e, node.ErrClosed)
				}
				c.NonTrivial()
			}
			if answer == 5 {
				// a late answer changes nothing
				p.send(in.seq, right[what])
			}
		}
	})
}
