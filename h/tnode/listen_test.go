package tnode

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"

	"verif/h/pbt"
)

// TestN08Listen is about nodes which start to listen later: once, at the
// address they tell; a failed attempt changes nothing, and closing releases
// the address
func TestN08Listen(t *testing.T) {
	pbt.Check(t, "listen", 200, 3000, func(t *rapid.T, c *pbt.Case) {
		var addrs = []string{newAddr(), newAddr(), newAddr()}
		var tcp, udp = map[string]int{}, map[string]int{} // who listens
		type listener struct {
			*tnode
			tcp, udp string
			closed   bool
		}
		var xs []*listener
		var start = func(ta, ua string) {
			var x = &listener{tnode: &tnode{i: len(xs), db: memDB(), open: map[*node.Conn]int{}}}
			var n, err = x.start(func(conf *node.Config) { conf.TCP.Listen, conf.UDP.Listen = ta, ua })
			var taken = ta != "" && tcp[ta] > 0 || ua != "" && udp[ua] > 0
			c.Note("new node %q %q: %v", ta, ua, err)
			if (err != nil) != taken {
				t.Fatalf("new node that listens at %q and %q: %v, taken: %v", ta, ua, err, taken)
			}
			if err != nil {
				c.NonTrivial()
				x.db.close()
				return
			}
			x.n, x.tcp, x.udp = n, ta, ua
			xs = append(xs, x)
			if ta != "" {
				tcp[ta] = len(xs)
			}
			if ua != "" {
				udp[ua] = len(xs)
			}
		}
		defer func() {
			for _, x := range xs {
				x.stop()
			}
		}()
		var addr = func() string {
			return rapid.SampledFrom(append([]string{""}, addrs...)).Draw(t, "address")
		}
		start(addr(), addr())
		for k := rapid.IntRange(2, 12).Draw(t, "ops"); k > 0; k-- {
			var x *listener
			if len(xs) > 0 {
				x = xs[rapid.IntRange(0, len(xs)-1).Draw(t, "node")]
			}
			var op = rapid.IntRange(0, 9).Draw(t, "op")
			switch {
			case op == 0 && len(xs) < 5:
				start(addr(), addr())
			case x == nil:
			case op == 1 && !x.closed:
				c.Note("close %d", x.i)
				pbt.Within(patience, "Close", func() { x.n.Close() })
				x.closed = true
				delete(tcp, x.tcp)
				delete(udp, x.udp)
			case op < 6 && !x.closed:
				var isUDP = rapid.Bool().Draw(t, "udp")
				var a = rapid.SampledFrom(addrs).Draw(t, "listen at")
				var err, want error
				var mine = &x.tcp
				var all = tcp
				if isUDP {
					mine, all = &x.udp, udp
					err = x.n.UDP().Listen(a)
				} else {
					err = x.n.TCP().Listen(a)
				}
				if *mine != "" {
					want = node.ErrAlreadyListen
					if err != want {
						t.Fatalf("second Listen (udp %v): %v", isUDP, err)
					}
				}
				c.Note("%d listens %q udp %v: %v", x.i, a, isUDP, err)
				if (err != nil) != (*mine != "" || all[a] > 0) {
					t.Fatalf("Listen %q (udp %v): %v, own %q, taken %v", a, isUDP, err, *mine, all)
				}
				if err != nil {
					c.NonTrivial()
				} else {
					*mine = a
					all[a] = x.i + 1
				}
			}
			for _, x := range xs {
				if x.closed {
					continue
				}
				if a, b := x.n.TCP().Address(), x.n.UDP().Address(); a != x.tcp || b != x.udp {
					t.Fatalf("addresses of node %d are %q and %q, want %q and %q", x.i, a, b, x.tcp, x.udp)
				}
			}
		}
		// who answers there
		var y = newNode(t, 9, nil)
		defer y.stop()
		for _, a := range addrs {
			for _, isUDP := range []bool{false, true} {
				var all, conn, err = tcp, (*node.Conn)(nil), error(nil)
				pbt.Within(patience, "Connect", func() {
					if isUDP {
						all = udp
						conn, err = y.n.UDP().Connect(a)
					} else {
						conn, err = y.n.TCP().Connect(a)
					}
				})
				if all[a] == 0 {
					if err == nil {
						t.Fatalf("nobody listens at %q (udp %v), but it connects", a, isUDP)
					}
					continue
				}
				if err != nil {
					t.Fatalf("node %d listens at %q (udp %v): %v", all[a]-1, a, isUDP, err)
				}
				if conn.PeerID() != xs[all[a]-1].n.ID() {
					t.Fatalf("another node answers at %q", a)
				}
				var x = xs[all[a]-1]
				eventually(t, "the peer has the connection", func() string {
					if len(x.n.Connections()) == 0 {
						return "no"
					}
					return ""
				})
				pbt.Within(patience, "Close of connection", func() { conn.Close() })
				eventually(t, "the peer closes the connection", func() string {
					if len(x.n.Connections())+len(y.n.Connections()) > 0 {
						return "no"
					}
					return ""
				})
			}
		}
	})
}
