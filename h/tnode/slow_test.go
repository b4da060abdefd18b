package tnode

import (
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// pubRoot identifies a published root
type pubRoot struct {
	f          int
	nonce, seq uint64
}

func rootOf(m *msg.Root) pubRoot {
	for f := range keys {
		if keys[f].pk == m.Feed {
			return pubRoot{f, m.Nonce, m.Seq}
		}
	}
	return pubRoot{-1, m.Nonce, m.Seq}
}

// messages received so far
func (p *rawPeer) all() []rawMsg {
	p.mx.Lock()
	defer p.mx.Unlock()
	return append([]rawMsg(nil), p.msgs...)
}

// a peer that does not read
func TestN02Slow(t *testing.T) {
	pbt.Check(t, "slow", 500, 8000, func(t *rapid.T, c *pbt.Case) {
		factory.SetLimit(rapid.IntRange(1, 4).Draw(t, "buffer"))
		defer factory.SetLimit(0)
		var x = newNode(t, 0, nil)
		var peers []*rawPeer
		defer func() {
			for _, p := range peers {
				p.close()
			}
			x.stop()
		}()
		const feeds = 2
		const filler = 2 // feed
		for f := 0; f <= filler; f++ {
			if err := x.n.Share(keys[f].pk); err != nil {
				t.Fatal(err)
			}
		}
		var conns []*node.Conn
		for i := 0; i < 2; i++ { // slow and fast
			var p, err = dial(x.addr)
			if err != nil {
				t.Fatalf("dial: %v", err)
			}
			peers = append(peers, p)
			if _, err = p.shake(); err != nil {
				t.Fatalf("handshake: %v", err)
			}
			p.loop()
			for f := 0; f <= filler; f++ {
				if i == 1 && f == filler {
					continue
				}
				p.send(0, &msg.Sub{Feed: keys[f].pk})
			}
			var conn *node.Conn
			eventually(t, "subscribed", func() string {
				for _, c := range x.n.Connections() {
					if c.PeerID() == p.id {
						conn = c
						if s := feedNames(c.Feeds()); s == "0,1,2" || i == 1 && s == "0,1" {
							return ""
						}
					}
				}
				return "not yet"
			})
			conns = append(conns, conn)
		}
		var slow, fast = peers[0], peers[1]
		var published []pubRoot
		var objs = map[pubRoot]*registry.Root{}
		var publish = func(f int, nonce, seq uint64) {
			var k = pubRoot{f, nonce, seq}
			var r = objs[k]
			if r == nil {
				r = &registry.Root{Pub: keys[f].pk, Nonce: nonce, Seq: seq, Reg: regs[0].Reference(), Time: int64(len(objs) + 1)}
				objs[k] = r
			}
			var cp = *r
			x.n.Publish(&cp)
			if f != filler {
				published = append(published, k)
			}
		}
		// newest roots of feeds in given ones
		var newest = func(ps []pubRoot) (m map[[2]uint64]uint64) {
			m = map[[2]uint64]uint64{}
			for _, p := range ps {
				var k = [2]uint64{uint64(p.f), p.nonce}
				if s, ok := m[k]; !ok || p.seq > s {
					m[k] = p.seq
				}
			}
			return
		}
		var got = func(p *rawPeer, rest int) (ps []pubRoot) {
			for i, in := range p.all() {
				if m, ok := in.m.(*msg.Root); ok && i >= rest {
					if r := rootOf(m); r.f != filler {
						ps = append(ps, r)
					}
				}
			}
			return
		}
		var reached = func(p *rawPeer, rest int, want []pubRoot) string {
			var g = newest(got(p, rest))
			for k, seq := range newest(want) {
				if s, ok := g[k]; !ok || s != seq {
					return fmt.Sprintf("feed %d, head %d: got %d (%v), want %d", k[0], k[1], s, ok, seq)
				}
			}
			return ""
		}
		// the slow one does not read
		atomic.StoreInt32(&slow.mute, 1)
		for k := uint64(1); k <= 300; k++ {
			publish(filler, k, 0)
		}
		eventually(t, "the peer does not read", func() string {
			if q := conns[0].GetChanOut(); len(q) != cap(q) {
				return fmt.Sprintf("%d messages on the way", len(q))
			}
			return ""
		})
		time.Sleep(2 * time.Millisecond)
		var fastFrom = len(fast.all())
		var want []pubRoot // after the last unsubscribing
		var unsub = map[int]bool{}
		for k := rapid.IntRange(2, 40).Draw(t, "acts"); k > 0; k-- {
			var f = rapid.IntRange(0, feeds-1).Draw(t, "feed")
			var nonce = rapid.Uint64Range(1, 3).Draw(t, "head")
			switch rapid.IntRange(0, 15).Draw(t, "act") {
			case 0:
				if unsub[f] {
					continue
				}
				// published roots are on the way to peers
				eventually(t, "other peers are served", func() string { return reached(fast, fastFrom, published) })
				c.Note("unsubscribe %d", f)
				pbt.Within(patience, "Unsubscribe", func() { conns[0].Unsubscribe(keys[f].pk) })
				unsub[f] = true
			default:
				var seq = rapid.Uint64Range(0, 6).Draw(t, "seq")
				c.Note("%d %d/%d", f, nonce, seq)
				publish(f, nonce, seq)
				if !unsub[f] {
					want = append(want, pubRoot{f, nonce, seq})
				}
			}
		}
		var flood = rapid.Bool().Draw(t, "flood") && !unsub[0]
		const long = 120
		if flood {
			for s := uint64(10); s < 10+long; s++ {
				publish(0, 1, s)
				want = append(want, pubRoot{0, 1, s})
			}
		}
		eventually(t, "other peers are served", func() string { return reached(fast, fastFrom, published) })
		// and then it reads
		atomic.StoreInt32(&slow.mute, 0)
		eventually(t, "the slow peer is served", func() string { return reached(slow, 0, want) })
		eventually(t, "the slow peer gets Unsub", func() string {
			for f := range unsub {
				if _, ok := slow.find(func(in rawMsg) bool {
					var m, ok = in.m.(*msg.Unsub)
					return ok && m.Feed == keys[f].pk
				}); !ok {
					return fmt.Sprint("no Unsub of ", f)
				}
			}
			return ""
		})
		time.Sleep(time.Millisecond)
		for i, p := range peers {
			var left = published
			var gone = map[int]bool{}
			var floods, fill int
			for _, in := range p.all() {
				switch m := in.m.(type) {
				case *msg.Unsub:
					for f := range keys {
						if keys[f].pk == m.Feed {
							gone[f] = true
						}
					}
				case *msg.Root:
					var r = rootOf(m)
					if r.f == filler {
						fill++
						continue
					}
					if hashOf(m.Value) != hashOf(objs[r].Encode()) {
						t.Fatalf("another root %v is sent", r)
					}
					if gone[r.f] {
						t.Fatalf("root %v is sent after Unsub", r)
					}
					// order of publishing
					var k int
					for k = 0; k < len(left) && left[k] != r; k++ {
					}
					if k == len(left) {
						t.Fatalf("root %v is sent to peer %d, published roots after previous one: %v", r, i, left)
					}
					left = left[k+1:]
					if r.seq >= 10 {
						floods++
					}
				}
			}
			if i == 0 && fill != 300 {
				t.Fatalf("%d of 300 roots of different heads are sent", fill)
			}
			if i == 0 && floods > long/2 {
				t.Fatalf("%d of %d replaced roots are sent to a peer that does not read", floods, long)
			}
			if p.isClosed() {
				t.Fatalf("connection with peer %d is closed", i)
			}
		}
		x.checkBad(t)
		if len(want) > len(newest(want)) {
			c.NonTrivial()
		}
	})
}
