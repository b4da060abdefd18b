package tnode

import (
	"net"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"

	"verif/h/pbt"
)

// TestN07Bare is about RPC of a node that doesn't listen: transports are
// created by need, and before that calls of them are refused
func TestN07Bare(t *testing.T) {
	pbt.Check(t, "RPC without transports", 500, 8000, func(t *rapid.T, c *pbt.Case) {
		var x *tnode
		var rc *node.RPCClient
		for try := 0; rc == nil; try++ {
			if try > 20 {
				t.Fatalf("no RPC")
			}
			var l, err = net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				pbt.Infra(err)
			}
			var addr = l.Addr().String()
			l.Close()
			x = &tnode{db: memDB(), open: map[*node.Conn]int{}}
			x.n, err = x.start(func(conf *node.Config) { conf.RPC = addr })
			if err != nil {
				x.db.close()
				continue // the port is used
			}
			var own, _ = cipher.GenerateKeyPair()
			x.n.Share(own)
			if rc, err = node.NewRPCClient(addr); err == nil {
				if ok, err := rc.Node().IsSharing(own); err == nil && ok {
					x.n.DontShare(own)
					break
				}
				rc.Close()
				rc = nil
			}
			x.stop()
		}
		defer x.stop()
		defer rc.Close()
		var y = newNode(t, 1, nil)
		defer y.stop()
		if err := y.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		if err := x.n.Share(keys[0].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		var down = newAddr()
		var has = map[bool]bool{} // transports by TCP
		var at = map[bool]string{}
		var up = map[bool]bool{} // connected to y
		for k := rapid.IntRange(3, 15).Draw(t, "ops"); k > 0; k-- {
			var tcp = rapid.Bool().Draw(t, "tcp")
			var tr transport = rc.UDP()
			var addr = y.udp
			if tcp {
				tr, addr = rc.TCP(), y.addr
			}
			var known = rapid.IntRange(0, 3).Draw(t, "known") > 0
			if !known {
				addr = down
			}
			var there = up[tcp] && known
			var err error
			var want bool // no error
			var what string
			pbt.Within(patience, "RPC call", func() {
				switch rapid.IntRange(0, 8).Draw(t, "op") {
				case 0, 1:
					var a string
					a, err = tr.Address()
					what, want = "Address", has[tcp]
					if err == nil && a != at[tcp] {
						t.Fatalf("address is %q, want %q", a, at[tcp])
					}
				case 2:
					what, want = "Connect", known && !up[!tcp] // one connection per peer
					err = tr.Connect(addr)
					has[tcp] = true
					up[tcp] = up[tcp] || want
				case 3:
					what, want = "Disconnect", true
					err = tr.Disconnect(addr)
					up[tcp] = up[tcp] && !known
				case 4:
					what, want = "Subscribe", there
					err = tr.Subscribe(addr, keys[0].pk)
				case 5:
					what, want = "Unsubscribe", there
					err = tr.Unsubscribe(addr, keys[0].pk)
				case 6:
					what, want = "RemoteFeeds", there
					var fs []cipher.PubKey
					if fs, err = tr.RemoteFeeds(addr); err == nil && (len(fs) != 1 || fs[0] != keys[0].pk) {
						t.Fatalf("remote feeds %s", feedNames(fs))
					}
				case 7:
					what, want = "Listen", at[tcp] == ""
					has[tcp] = true
					var a = newAddr()
					if tcp {
						err = x.n.TCP().Listen(a)
					} else {
						err = x.n.UDP().Listen(a)
					}
					if err == nil {
						at[tcp] = a
					}
				case 8:
					// the node has all of the rest
					what, want = "others", true
					var cs []string
					if cs, err = rc.Node().Connections(); err == nil {
						var n int
						for _, b := range []bool{true, false} {
							if up[b] {
								n++
							}
						}
						if len(cs) != n {
							t.Fatalf("connections %v, want %d", cs, n)
						}
						_, err = rc.Node().Stat()
					}
				}
			})
			c.Note("%s tcp %v, known %v: %v", what, tcp, known, err)
			if (err == nil) != want {
				t.Fatalf("%s (tcp %v, peer is known %v, connected %v, transport %v): %v", what, tcp, known, up[tcp], has[tcp], err)
			}
			if !has[tcp] && what != "others" {
				c.NonTrivial()
			}
			if what == "Connect" || what == "Disconnect" {
				var n int
				for _, b := range []bool{true, false} {
					if up[b] {
						n++
					}
				}
				eventually(t, "both have the connections", func() string {
					if len(x.n.Connections()) != n || len(y.n.Connections()) != n {
						return "no"
					}
					return ""
				})
			}
		}
		if ok, err := rc.Node().IsSharing(keys[0].pk); err != nil || !ok {
			t.Fatalf("the feed is not shared: %v, %v", ok, err)
		}
	})
}
