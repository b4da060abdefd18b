package tnode

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"verif/h/pbt"
)

// addresses the list can hold and can't hold
var (
	goodAddrs = []string{"", "10.9.0.1:7001", "10.9.0.2:7002", "127.0.0.1:1", "255.255.255.255:65535", "0.0.0.0:80", "10.9.0.3:7003"}
	badAddrs  = []string{"abc", "1.2.3.4", "1.2.3.4:65536", "1.2.3.4:99999999999999999999", "1.2.3:5", ":80", "300.1.1.1:80",
		"1.2.3.4:x", "1.2.3.4:80:80", "1.2.3.4:-1", "1.2.3.4:", ":", "example.com:80", "1.2.3.4;80", " 1.2.3.4:80", "1.2.3.4:8 0", "1.2.3.4:80\n"}
)

// pexPeer is a raw peer that answers with lists of peers
type pexPeer struct {
	*rawPeer
	sub   bool
	left  bool // swarm
	next  chan msg.Msg
	asked int32
}

type pex struct {
	t     *rapid.T
	c     *pbt.Case
	x     *tnode
	max   int
	per   int
	peers []*pexPeer
	ids   []cipher.PubKey
	model map[cipher.PubKey]node.Peer
	s     *node.Swarm

	mx      sync.Mutex
	added   map[string]int
	updated int
	removed int

	wantAdded        map[string]int
	wantUpLo, wantUp int
}

func infoString(pk cipher.PubKey, meta []byte, tcp, udp string) string {
	return fmt.Sprintf("%s %x %q %q", pk.Hex()[:8], meta, tcp, udp)
}

func peerString(p node.Peer) string {
	return infoString(p.PubKey, p.Metadata, p.TCPAddr, p.UDPAddr)
}

func msgString(p msg.PeerInfo) string {
	return infoString(p.PubKey, p.Metadata, p.TCPAddr, p.UDPAddr)
}

func listString(ps map[cipher.PubKey]node.Peer) string {
	var ss []string
	for _, p := range ps {
		ss = append(ss, peerString(p))
	}
	sort.Strings(ss)
	return strings.Join(ss, ", ")
}

// list of the swarm
func (a *pex) list() (ps map[cipher.PubKey]node.Peer) {
	ps = map[cipher.PubKey]node.Peer{}
	for _, p := range a.s.Peers() {
		if _, ok := ps[p.PubKey]; ok {
			a.t.Fatalf("peer %s is twice in the list", p.PubKey.Hex())
		}
		ps[p.PubKey] = p
	}
	if len(ps) > a.max {
		a.t.Fatalf("%d peers, limit is %d", len(ps), a.max)
	}
	return
}

func (a *pex) check() {
	if g, w := listString(a.list()), listString(a.model); g != w {
		a.t.Fatalf("peers %s, want %s", g, w)
	}
}

type info struct {
	msg.PeerInfo
	valid bool
}

func (a *pex) info() (p info) {
	p.valid = true
	switch k := rapid.IntRange(0, 19).Draw(a.t, "id"); {
	case k == 0:
		p.valid = false // blank
	case k == 1:
		p.PubKey, p.valid = a.x.n.ID(), false
	default:
		p.PubKey = rapid.SampledFrom(a.ids).Draw(a.t, "peer")
	}
	if n := rapid.IntRange(0, 3).Draw(a.t, "meta"); n > 0 {
		p.Metadata = bytes.Repeat([]byte{byte(n)}, n)
	}
	var addr = func(own string) (s string) {
		switch k := rapid.IntRange(0, 19).Draw(a.t, "address"); {
		case k == 0:
			p.valid = false
			return own
		case k < 3:
			p.valid = false
			return rapid.SampledFrom(badAddrs).Draw(a.t, "bad")
		}
		return rapid.SampledFrom(goodAddrs).Draw(a.t, "good")
	}
	p.TCPAddr = addr(a.x.addr)
	p.UDPAddr = addr(a.x.udp)
	return
}

func (a *pex) join(cfg node.SwarmConfig) {
	var err error
	if a.s, err = a.x.n.JoinSwarm(keys[0].pk, cfg); err != nil {
		a.t.Fatalf("join: %v", err)
	}
	a.model = map[cipher.PubKey]node.Peer{}
}

func (a *pex) newPeer(sub bool) (p *pexPeer) {
	var raw, err = dial(a.x.addr)
	if err != nil {
		a.t.Fatalf("dial: %v", err)
	}
	if _, err = raw.shake(); err != nil {
		a.t.Fatalf("handshake: %v", err)
	}
	p = &pexPeer{rawPeer: raw, sub: sub, next: make(chan msg.Msg, 100)}
	raw.on = func(raw *rawPeer, in rawMsg) {
		var rq, ok = in.m.(*msg.RqPeers)
		if !ok {
			return
		}
		if rq.Feed != keys[0].pk || !p.sub {
			raw.mx.Lock()
			raw.bad = append(raw.bad, "peers of feed "+feedName(rq.Feed)+" are requested")
			raw.mx.Unlock()
		}
		var m msg.Msg = &msg.Peers{Feed: keys[0].pk}
		select {
		case m = <-p.next:
		default:
		}
		if m != nil {
			raw.send(in.seq, m)
		}
		atomic.AddInt32(&p.asked, 1)
	}
	raw.loop()
	if sub {
		p.ask(a.t, &msg.Sub{Feed: keys[0].pk})
	}
	a.peers = append(a.peers, p)
	a.ids = append(a.ids, raw.id)
	return
}

// ask the node
func (p *pexPeer) ask(t failer, m msg.Msg) (r msg.Msg) {
	var seq = p.send(0, m)
	eventually(t, "response", func() string {
		var in, ok = p.find(func(in rawMsg) bool { return in.rseq == seq })
		if r = in.m; !ok {
			return fmt.Sprintf("no response to %T", m)
		}
		return ""
	})
	return
}

// full list makes no requests
func (a *pex) full() bool { return len(a.model) >= a.max }

func (a *pex) subscribed() (ps []*pexPeer) {
	for _, p := range a.peers {
		if p.sub {
			ps = append(ps, p)
		}
	}
	return
}

// rounds of requests pass
func (a *pex) rounds(n int32) {
	if a.full() {
		return
	}
	for _, p := range a.subscribed() {
		var was = atomic.LoadInt32(&p.asked)
		eventually(a.t, "peers are requested", func() string {
			if atomic.LoadInt32(&p.asked) < was+n && len(a.list()) < a.max {
				return "peers are not requested from a peer"
			}
			return ""
		})
	}
}

// receive list of peers
func (a *pex) receive(p *pexPeer, list []info) {
	var m = &msg.Peers{Feed: keys[0].pk}
	var byKey = map[cipher.PubKey]map[string]bool{}
	var items = map[cipher.PubKey]int{}
	var fresh int
	for _, i := range list {
		m.List = append(m.List, i.PeerInfo)
		if i.valid {
			if byKey[i.PubKey] == nil {
				byKey[i.PubKey] = map[string]bool{}
				if _, ok := a.model[i.PubKey]; !ok {
					fresh++
				}
			}
			byKey[i.PubKey][msgString(i.PeerInfo)] = true
			items[i.PubKey]++
		}
	}
	var want = len(a.model) + fresh
	if want > a.max {
		want = a.max
	}
	var was = atomic.LoadInt32(&p.asked)
	p.next <- m
	eventually(a.t, "request", func() string {
		if atomic.LoadInt32(&p.asked) == was || len(p.next) > 0 {
			return "peers are not requested"
		}
		return ""
	})
	a.rounds(2) // what is received can be not distinguishable from what is known
	var now map[cipher.PubKey]node.Peer
	eventually(a.t, "received peers", func() string {
		now = a.list()
		if len(now) != want {
			return fmt.Sprintf("%d peers, want %d", len(now), want)
		}
		for pk, p := range now {
			if vs, ok := byKey[pk]; ok {
				if !vs[peerString(p)] {
					return "peer " + peerString(p) + " is not what was received"
				}
			} else if w, ok := a.model[pk]; !ok || peerString(p) != peerString(w) {
				return "peer " + peerString(p) + " was not received"
			}
		}
		for pk := range a.model {
			if _, ok := now[pk]; !ok {
				return "peer " + peerString(a.model[pk]) + " is lost"
			}
		}
		return ""
	})
	for pk, vs := range byKey {
		var p, ok = now[pk]
		if !ok {
			continue
		}
		if time.Since(p.LastSeen) > time.Minute {
			a.t.Fatalf("received peer was seen at %v", p.LastSeen)
		}
		if w, ok := a.model[pk]; !ok {
			a.wantAdded[pk.Hex()]++
			if len(vs) > 1 {
				a.wantUp += items[pk] - 1
				a.wantUpLo++
			}
		} else if len(vs) > 1 {
			a.wantUp += items[pk]
			a.wantUpLo++
		} else if !vs[peerString(w)] {
			a.wantUp++
			a.wantUpLo++
		}
	}
	a.model = now
}

func (a *pex) callbacks() {
	eventually(a.t, "callbacks", func() string {
		a.mx.Lock()
		defer a.mx.Unlock()
		if g, w := fmt.Sprint(a.added), fmt.Sprint(a.wantAdded); g != w {
			return fmt.Sprintf("OnPeerAdded %s, want %s", g, w)
		}
		if a.updated < a.wantUpLo || a.updated > a.wantUp {
			return fmt.Sprintf("OnPeerUpdated %d, want %d..%d", a.updated, a.wantUpLo, a.wantUp)
		}
		if a.removed != 0 {
			return fmt.Sprintf("OnPeerRemoved is called %d times", a.removed)
		}
		return ""
	})
}

// exchange checks what the node tells
func (a *pex) exchange(p *pexPeer) {
	var r = p.ask(a.t, &msg.RqPeers{Feed: keys[0].pk})
	var ps, ok = r.(*msg.Peers)
	if !ok || ps.Feed != keys[0].pk {
		a.t.Fatalf("%T is response to request of peers", r)
	}
	var want = 0
	for pk, q := range a.model {
		if pk != p.id && q.RetryTimes == 0 {
			want++
		}
	}
	if want > a.per {
		want = a.per
	}
	if len(ps.List) != want {
		a.t.Fatalf("%d peers are told, want %d (%d known)", len(ps.List), want, len(a.model))
	}
	var seen = map[cipher.PubKey]bool{}
	for _, i := range ps.List {
		var q, ok = a.model[i.PubKey]
		if !ok || i.PubKey == p.id || seen[i.PubKey] || msgString(i) != peerString(q) {
			a.t.Fatalf("peer %s is told, known are %s", msgString(i), listString(a.model))
		}
		seen[i.PubKey] = true
	}
}

func (a *pex) hooks(conf *node.Config) {
	conf.OnPeerAdded = func(f cipher.PubKey, p node.Peer) {
		a.mx.Lock()
		defer a.mx.Unlock()
		if f != keys[0].pk {
			a.x.fail("OnPeerAdded of feed %s", feedName(f))
		}
		a.added[p.PubKey.Hex()]++
	}
	conf.OnPeerUpdated = func(f cipher.PubKey, p node.Peer) {
		a.mx.Lock()
		defer a.mx.Unlock()
		a.updated++
	}
	conf.OnPeerRemoved = func(f cipher.PubKey, p node.Peer) {
		a.mx.Lock()
		defer a.mx.Unlock()
		a.removed++
	}
}

func newPex(t *rapid.T, c *pbt.Case) (a *pex) {
	a = &pex{t: t, c: c, added: map[string]int{}, wantAdded: map[string]int{}}
	for i := 0; i < 5; i++ {
		a.ids = append(a.ids, newID())
	}
	return
}

func (a *pex) stop() {
	for _, p := range a.peers {
		p.close()
	}
	a.x.stop()
}

func (a *pex) honest() {
	for _, p := range a.peers {
		p.mx.Lock()
		var bad = strings.Join(p.bad, "; ")
		p.mx.Unlock()
		if bad != "" {
			a.t.Fatalf("%s", bad)
		}
	}
	a.x.checkBad(a.t)
}

func TestN06(t *testing.T) {
	pbt.Check(t, "peer exchange", 250, 4000, func(t *rapid.T, c *pbt.Case) {
		var a = newPex(t, c)
		a.x = newNode(t, 0, a.hooks)
		defer a.stop()
		for f := 0; f < 2; f++ {
			if err := a.x.n.Share(keys[f].pk); err != nil {
				t.Fatalf("share: %v", err)
			}
		}
		var cfg = node.SwarmConfig{
			MaxPeers:          uint64(rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 0}).Draw(t, "max peers")),
			RequestPeerRate:   2 * time.Millisecond,
			ClearOldPeersRate: 3 * time.Millisecond,
			OutgoingConnRate:  time.Hour,
			PeersPerResponse:  uint64(rapid.IntRange(0, 4).Draw(t, "per response")),
		}
		if a.max = int(cfg.MaxPeers); a.max == 0 {
			a.max = 1000
		}
		if a.per = int(cfg.PeersPerResponse); a.per == 0 {
			a.per = 30
		}
		a.join(cfg)
		a.newPeer(true)
		for k := rapid.IntRange(0, 2).Draw(t, "more peers"); k > 0; k-- {
			a.newPeer(rapid.Bool().Draw(t, "subscribed"))
		}
		var received, local int
		for k := rapid.IntRange(1, 25).Draw(t, "ops"); k > 0; k-- {
			switch rapid.IntRange(0, 12).Draw(t, "op") {
			case 0, 1, 2, 3:
				var i = a.info()
				var _, known = a.model[i.PubKey]
				var ok = i.valid && (known || !a.full())
				c.Note("add %s %v", msgString(i.PeerInfo), ok)
				if err := a.s.AddPeer(i.PubKey, i.Metadata, i.TCPAddr, i.UDPAddr); ok != (err == nil) {
					t.Fatalf("AddPeer %s with %d of %d: %v", msgString(i.PeerInfo), len(a.model), a.max, err)
				}
				if ok {
					a.model[i.PubKey] = node.Peer{PubKey: i.PubKey, Metadata: i.Metadata, TCPAddr: i.TCPAddr, UDPAddr: i.UDPAddr}
					local++
				}
			case 4, 5:
				var pk = rapid.SampledFrom(a.ids).Draw(t, "peer")
				var _, known = a.model[pk]
				c.Note("remove %v", known)
				if err := a.s.RemovePeer(pk); known != (err == nil) {
					t.Fatalf("RemovePeer: %v, known %v", err, known)
				}
				delete(a.model, pk)
			case 6, 7, 8, 9:
				if a.full() {
					break
				}
				var list []info
				for n := rapid.IntRange(0, 8).Draw(t, "items"); n > 0; n-- {
					list = append(list, a.info())
				}
				c.Note("receive %d, known %d, max %d", len(list), len(a.model), a.max)
				a.receive(pick(t, "from", a.subscribed()), list)
				received++
			case 10:
				// is not an answer
				if a.full() {
					break
				}
				var i = a.info()
				var m = rapid.SampledFrom([]msg.Msg{nil, &msg.Err{Err: "no"}, &msg.Ok{}, &msg.List{},
					&msg.Peers{Feed: keys[1].pk, List: []msg.PeerInfo{i.PeerInfo}}, &msg.Peers{List: []msg.PeerInfo{i.PeerInfo}}}).Draw(t, "wrong")
				pick(t, "from", a.subscribed()).next <- m
				a.rounds(2)
			case 11:
				a.exchange(pick(t, "to", a.peers))
				var r = pick(t, "other feed", a.peers).ask(t, &msg.RqPeers{Feed: keys[1].pk})
				if _, ok := r.(*msg.Err); !ok {
					t.Fatalf("%T about peers of a swarm the node is not in", r)
				}
			case 12:
				if rapid.IntRange(0, 3).Draw(t, "leaves") > 0 {
					// join again changes nothing
					if s, err := a.x.n.JoinSwarm(keys[0].pk, cfg); err != nil || s != a.s {
						t.Fatalf("joined twice: %v", err)
					}
					break
				}
				c.Note("leave")
				pbt.Within(patience, "LeaveSwarm", func() {
					if err := a.x.n.LeaveSwarm(keys[0].pk); err != nil {
						t.Fatalf("leave: %v", err)
					}
				})
				if err := a.x.n.LeaveSwarm(keys[0].pk); err == nil {
					t.Fatalf("left twice")
				}
				if _, ok := a.x.n.InSwarm(keys[0].pk); ok {
					t.Fatalf("is in swarm after leaving")
				}
				if r, ok := pick(t, "peer", a.peers).ask(t, &msg.RqPeers{Feed: keys[0].pk}).(*msg.Err); !ok {
					t.Fatalf("%T about peers of left swarm", r)
				}
				a.join(cfg)
			}
			if s, ok := a.x.n.InSwarm(keys[0].pk); !ok || s != a.s {
				t.Fatalf("InSwarm: %v", ok)
			}
			a.check()
		}
		a.rounds(2)
		a.check()
		a.callbacks()
		a.exchange(a.peers[0])
		a.honest()
		if received > 0 && local > 0 {
			c.NonTrivial()
		}
	})
}

// many goroutines and exchanges at the same time
func TestN06Concurrent(t *testing.T) {
	pbt.Check(t, "peer exchange, concurrent", 60, 1000, func(t *rapid.T, c *pbt.Case) {
		var a = newPex(t, c)
		a.x = newNode(t, 0, a.hooks)
		defer a.stop()
		if err := a.x.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		var cfg = node.SwarmConfig{
			MaxPeers:          uint64(rapid.IntRange(1, 6).Draw(t, "max peers")),
			RequestPeerRate:   time.Millisecond,
			ClearOldPeersRate: time.Millisecond,
			OutgoingConnRate:  time.Millisecond,
		}
		a.max, a.per = int(cfg.MaxPeers), 30
		a.join(cfg)
		for k := rapid.IntRange(1, 3).Draw(t, "peers"); k > 0; k-- {
			a.newPeer(true)
		}
		var values = map[string]bool{}
		var draw = func() (i info) {
			if i = a.info(); i.valid {
				values[msgString(i.PeerInfo)] = true
			}
			return
		}
		for _, p := range a.peers {
			for k := rapid.IntRange(0, 10).Draw(t, "lists"); k > 0; k-- {
				var m = &msg.Peers{Feed: keys[0].pk}
				for n := rapid.IntRange(1, 6).Draw(t, "items"); n > 0; n-- {
					m.List = append(m.List, draw().PeerInfo)
				}
				p.next <- m
			}
		}
		var wg sync.WaitGroup
		for k := rapid.IntRange(1, 4).Draw(t, "goroutines"); k > 0; k-- {
			type op struct {
				i    info
				kind int
			}
			var ops []op
			for n := rapid.IntRange(1, 15).Draw(t, "ops"); n > 0; n-- {
				ops = append(ops, op{draw(), rapid.IntRange(0, 3).Draw(t, "kind")})
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range ops {
					switch o.kind {
					case 0, 1:
						a.s.AddPeer(o.i.PubKey, o.i.Metadata, o.i.TCPAddr, o.i.UDPAddr)
					case 2:
						a.s.RemovePeer(o.i.PubKey)
					case 3:
						if n := len(a.s.Peers()); n > a.max {
							a.x.fail("%d peers, limit is %d", n, a.max)
						}
						time.Sleep(time.Millisecond)
					}
				}
			}()
		}
		pbt.Within(patience, "concurrent exchange", wg.Wait)
		for i := 0; i < 5; i++ {
			for _, p := range a.list() {
				if !values[peerString(p)] {
					t.Fatalf("peer %s was not given", peerString(p))
				}
			}
			time.Sleep(time.Millisecond)
		}
		if rapid.Bool().Draw(t, "leave") {
			pbt.Within(patience, "LeaveSwarm", func() { a.x.n.LeaveSwarm(keys[0].pk) })
		}
		a.honest()
		c.NonTrivial()
	})
}

// the swarm connects to peers of the list
func TestN06Connect(t *testing.T) {
	pbt.Check(t, "swarm connects", 60, 1000, func(t *rapid.T, c *pbt.Case) {
		var a = newPex(t, c)
		a.x = newNode(t, 0, a.hooks)
		defer a.stop()
		if err := a.x.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		var cfg = node.SwarmConfig{
			RequestPeerRate:   time.Hour,
			ClearOldPeersRate: time.Hour,
			OutgoingConnRate:  3 * time.Millisecond,
		}
		a.max, a.per = 1000, 30
		a.join(cfg)
		type target struct {
			l    *rawListener
			id   cipher.PubKey
			kind int32 // good, no handshake, no subscription, nobody
		}
		var ts []*target
		var mx sync.Mutex
		var live = map[cipher.PubKey]*rawPeer{}
		defer func() {
			for _, x := range ts {
				x.l.f.Close()
			}
		}()
		var good int
		var lost bool // connections or attempts are lost: late failures of good peers are possible
		for k := rapid.IntRange(1, 5).Draw(t, "targets"); k > 0; k-- {
			var x = &target{l: listenRaw(t), id: newID(), kind: rapid.SampledFrom([]int32{0, 0, 0, 1, 2, 3}).Draw(t, "kind")}
			ts = append(ts, x)
			c.Note("kind %d", x.kind)
			if x.kind == 0 {
				good++
			}
			if x.kind == 3 {
				x.l.f.Close()
			}
			go func() {
				for p := range x.l.acc {
					p.id = x.id
					p.on = func(p *rawPeer, in rawMsg) {
						switch m := in.m.(type) {
						case *msg.Syn:
							if atomic.LoadInt32(&x.kind) == 1 {
								p.send(in.seq, &msg.Err{Err: "no"})
								p.c.Close()
								return
							}
							mx.Lock()
							live[x.id] = p
							mx.Unlock()
							p.send(in.seq, &msg.Ack{NodeID: x.id})
						case *msg.Sub:
							if m.Feed != keys[0].pk {
								a.x.fail("swarm subscribes to %s", feedName(m.Feed))
							}
							if x.kind == 2 {
								p.send(in.seq, &msg.Err{Err: "no"})
								return
							}
							p.send(in.seq, &msg.Ok{})
						}
					}
					p.loop()
				}
			}()
			if err := a.s.AddPeer(x.id, nil, x.l.addr, ""); err != nil {
				t.Fatalf("AddPeer: %v", err)
			}
		}
		var all = func() string {
			var n = 0
			var subs = map[cipher.PubKey]bool{}
			for _, c := range a.x.n.ConnectionsOfFeed(keys[0].pk) {
				subs[c.PeerID()] = true
			}
			for _, x := range ts {
				if x.kind == 0 && subs[x.id] {
					n++
				}
			}
			if n != good {
				return fmt.Sprintf("subscribed to %d peers, want %d", n, good)
			}
			for pk, p := range a.list() {
				for _, x := range ts {
					if x.id != pk {
						continue
					}
					if lost && x.kind == 0 {
						continue
					}
					if (x.kind != 0) != (p.RetryTimes > 0) {
						return fmt.Sprintf("retry times %d of peer kind %d", p.RetryTimes, x.kind)
					}
				}
			}
			return ""
		}
		var untilAll = func() { eventually(t, "the swarm is connected", all) }
		untilAll()
		if good > 0 && rapid.Bool().Draw(t, "reconnect") {
			mx.Lock()
			var p *rawPeer
			for _, x := range ts {
				if x.kind == 0 {
					p = live[x.id]
				}
			}
			mx.Unlock()
			p.c.Close()
			lost = true
			eventually(t, "closing", func() string {
				for _, c := range a.x.n.Connections() {
					if c.PeerID() == p.id {
						mx.Lock()
						var q = live[p.id]
						mx.Unlock()
						if q == p {
							return "the connection is not closed"
						}
					}
				}
				return ""
			})
			untilAll()
		}
		// a peer recovers
		for _, x := range ts {
			if x.kind == 1 && rapid.Bool().Draw(t, "recover") {
				c.Note("recovers")
				atomic.StoreInt32(&x.kind, 0)
				good++
				lost = true
			}
		}
		untilAll()
		// only good peers are told
		var q = a.newPeer(false)
		eventually(t, "peers are told", func() string {
			var retries = func() string {
				var s []string
				for pk, p := range a.list() {
					s = append(s, fmt.Sprint(pk.Hex(), p.RetryTimes == 0))
				}
				sort.Strings(s)
				return strings.Join(s, " ")
			}
			var before = retries()
			var ps, ok = q.ask(t, &msg.RqPeers{Feed: keys[0].pk}).(*msg.Peers)
			if !ok {
				t.Fatalf("no peers are told")
			}
			for _, i := range ps.List {
				for _, x := range ts {
					if x.id == i.PubKey && x.kind != 0 {
						t.Fatalf("peer that can't be connected is told")
					}
				}
			}
			if !lost && len(ps.List) != good {
				t.Fatalf("%d peers are told, want %d", len(ps.List), good)
			}
			if retries() != before {
				return "the list is changed"
			}
			if n := strings.Count(before, "true"); len(ps.List) != n {
				t.Fatalf("%d peers are told, want %d", len(ps.List), n)
			}
			return ""
		})
		pbt.Within(patience, "LeaveSwarm", func() { a.x.n.LeaveSwarm(keys[0].pk) })
		a.honest()
		if good > 0 {
			c.NonTrivial()
		}
	})
}

// peers nobody tells about are forgotten
func TestN06Expire(t *testing.T) {
	pbt.Check(t, "peers expire", 6, 60, func(t *rapid.T, c *pbt.Case) {
		var a = newPex(t, c)
		a.x = newNode(t, 0, a.hooks)
		defer a.stop()
		if err := a.x.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		const period = 600 * time.Millisecond
		a.max, a.per = 1000, 30
		var start = time.Now()
		a.join(node.SwarmConfig{RequestPeerRate: 5 * time.Millisecond, ClearOldPeersRate: 5 * time.Millisecond,
			OutgoingConnRate: time.Hour, PeerExpirePeriod: period})
		var p = a.newPeer(true)
		var old, seen = rapid.IntRange(1, 3).Draw(t, "forgotten"), rapid.IntRange(0, 2).Draw(t, "told")
		var told = &msg.Peers{Feed: keys[0].pk}
		for i := 0; i < old+seen; i++ {
			if err := a.s.AddPeer(a.ids[i], nil, goodAddrs[i], ""); err != nil {
				t.Fatalf("AddPeer: %v", err)
			}
			if i >= old {
				told.List = append(told.List, msg.PeerInfo{PubKey: a.ids[i], TCPAddr: goodAddrs[i]})
			}
		}
		var stop int32
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if len(p.next) < 2 {
					p.next <- told
				}
				time.Sleep(time.Millisecond)
			}
		}()
		defer wg.Wait()
		defer atomic.StoreInt32(&stop, 1)
		var last = start
		var stall bool
		eventually(t, "old peers are removed", func() string {
			var now = time.Now()
			var ps = a.list()
			for pk, q := range ps {
				if pk == a.ids[old+seen-1] && seen > 0 {
					last = q.LastSeen
				}
			}
			stall = stall || now.Sub(last) > period/4
			var n int
			for i := 0; i < old; i++ {
				if _, ok := ps[a.ids[i]]; ok {
					n++
				}
			}
			if n < old && time.Since(start) < period {
				var e = time.Since(start)
				if e < period {
					t.Fatalf("peers are removed in %v, want %v", e, period)
				}
			}
			if n > 0 {
				return fmt.Sprintf("%d peers are not removed", n)
			}
			for i := old; i < old+seen && !stall; i++ {
				if _, ok := ps[a.ids[i]]; !ok && now.Sub(last) < period/4 {
					t.Fatalf("peer that is told about is removed")
				}
			}
			return ""
		})
		if !stall {
			eventually(t, "OnPeerRemoved", func() string {
				a.mx.Lock()
				defer a.mx.Unlock()
				if a.removed != old {
					return fmt.Sprintf("OnPeerRemoved is called %d times, want %d", a.removed, old)
				}
				return ""
			})
		}
		a.honest()
		c.NonTrivial()
	})
}
