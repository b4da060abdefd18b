package tnode

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"

	"verif/h/pbt"
)

// TestN06Limits is about numbers of connections: a swarm connects as many
// peers as its limit and limits of the node allow, and no more after that
func TestN06Limits(t *testing.T) {
	pbt.Check(t, "swarm limits", 40, 700, func(t *rapid.T, c *pbt.Case) {
		var a = newPex(t, c)
		var mc = rapid.SampledFrom([]int{0, -1, 1, 2, 3, 4, 8}).Draw(t, "max connections")
		var mp = rapid.SampledFrom([]int{0, -1, 1, 2, 8}).Draw(t, "max pending connections")
		var feed = rapid.IntRange(0, 5).Draw(t, "connections of the feed")
		a.x = newNode(t, 0, func(conf *node.Config) {
			if rapid.Bool().Draw(t, "hooks") {
				a.hooks(conf)
			}
			conf.MaxConnections, conf.MaxPendingConnections = mc, mp
		})
		defer a.stop()
		if err := a.x.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		a.max, a.per = 1000, 30
		var mx sync.Mutex
		var live = map[cipher.PubKey]*rawPeer{}
		var syns = map[cipher.PubKey]int{}
		var first = map[cipher.PubKey]bool{} // connected by first attempt
		var rate = rapid.SampledFrom([]time.Duration{3 * time.Millisecond, 3 * time.Millisecond, 100 * time.Millisecond}).Draw(t, "rate")
		var begin time.Time
		var ls []*rawListener
		defer func() {
			for _, l := range ls {
				l.f.Close()
			}
		}()
		var target = func() (id cipher.PubKey) {
			var l = listenRaw(t)
			ls = append(ls, l)
			id = newID()
			go func() {
				for p := range l.acc {
					p.id = id
					p.on = func(p *rawPeer, in rawMsg) {
						switch in.m.(type) {
						case *msg.Syn:
							mx.Lock()
							live[id] = p
							syns[id]++
							if time.Since(begin) < 2*rate {
								first[id] = true
							}
							mx.Unlock()
							p.send(in.seq, &msg.Ack{NodeID: id})
						case *msg.Sub:
							p.send(in.seq, &msg.Ok{})
						}
					}
					p.loop()
				}
			}()
			if err := a.s.AddPeer(id, nil, l.addr, ""); err != nil {
				t.Fatalf("AddPeer: %v", err)
			}
			return
		}
		begin = time.Now() // second attempt is 2*rate later or more
		a.join(node.SwarmConfig{
			RequestPeerRate:   time.Hour,
			ClearOldPeersRate: time.Hour,
			OutgoingConnRate:  rate,
			MaxConns:          uint64(feed),
		})
		var n = rapid.IntRange(1, 5).Draw(t, "targets")
		for k := 0; k < n; k++ {
			target()
		}
		var limit = 1000
		if feed > 0 {
			limit = feed
		}
		if mc > 0 && mc < limit {
			limit = mc
		}
		var want = n
		if want > limit {
			want = limit
		}
		c.Note("%d targets, limit %d, max connections %d, pending %d", n, limit, mc, mp)
		var count = func() (cs int) {
			cs = len(a.x.n.ConnectionsOfFeed(keys[0].pk))
			if all := len(a.x.n.Connections()); mc > 0 && all > mc {
				t.Fatalf("%d connections, limit is %d", all, mc)
			}
			return
		}
		var until = func() {
			eventually(t, "the swarm is connected", func() string {
				if k := count(); k < want {
					return fmt.Sprintf("%d connections, want %d of %d", k, want, n)
				}
				return ""
			})
		}
		until()
		if n < limit {
			// there is a place
			for k := rapid.IntRange(1, 2).Draw(t, "more"); k > 0; k-- {
				target()
				n++
			}
			if want = n; want > limit {
				want = limit
			}
			until()
		}
		if want == limit {
			c.NonTrivial()
			time.Sleep(150 * time.Millisecond) // attempts that are begun
			var late = target()
			n++
			time.Sleep(20*time.Millisecond + rate)
			count()
			mx.Lock()
			var k, fs = syns[late], len(first)
			mx.Unlock()
			if k > 0 {
				t.Fatalf("a peer is connected over the limit %d", limit)
			}
			if fs > limit {
				t.Fatalf("%d peers are connected at once, limit is %d", fs, limit)
			}
		}
		// a place is released
		mx.Lock()
		var p *rawPeer
		for _, p = range live {
			break
		}
		mx.Unlock()
		p.c.Close()
		eventually(t, "closing", func() string {
			for _, c := range a.x.n.Connections() {
				if c.PeerID() == p.id {
					mx.Lock()
					var q = live[p.id]
					mx.Unlock()
					if q == p {
						return "the connection is not closed"
					}
				}
			}
			return ""
		})
		until()
		pbt.Within(patience, "LeaveSwarm", func() { a.x.n.LeaveSwarm(keys[0].pk) })
		a.honest()
	})
}
