package tnode

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	discovery "github.com/skycoin/net/skycoin-messenger/factory"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"

	"verif/h/pbt"
)

// dserver is a discovery server
type dserver struct {
	udp  bool
	addr string
	s    *discovery.Server
	fake map[int]map[int]bool // feed -> nodes it names
}

// disco is nodes, discovery servers and what they have to do
type disco struct {
	t    *rapid.T
	c    *pbt.Case
	log  []string
	xs   []*tnode
	pub  []bool
	lst  [2][]bool // tcp, udp: is listening
	at   []map[int]bool
	ds   []*dserver
	feed []map[int]bool // shared

	must, may map[[3]int]bool // i < j, feed
	met       map[[2]int]bool // could be connected
	fs        int
}

func (w *disco) note(format string, args ...interface{}) {
	w.c.Note(format, args...)
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func edge(i, j, f int) [3]int {
	var p = pair(i, j)
	return [3]int{p[0], p[1], f}
}

func (w *disco) offered(s, j, f int) bool {
	var d = w.ds[s]
	return w.xs[j] != nil && w.at[j][s] && w.pub[j] && w.lst[trans(d.udp)][j] && w.feed[j][f]
}

func trans(udp bool) int {
	if udp {
		return 1
	}
	return 0
}

// possible is everything the nodes could find by now
func (w *disco) possible() {
	for i := range w.xs {
		if w.xs[i] == nil {
			continue
		}
		for s, d := range w.ds {
			if !w.at[i][s] {
				continue
			}
			for j := range w.xs {
				if i == j || w.xs[j] == nil {
					continue
				}
				for f := range w.feed[i] {
					var named = d.fake[f][j] && w.lst[trans(d.udp)][j]
					if named || w.offered(s, j, f) {
						w.met[pair(i, j)] = true
						if w.feed[j][f] {
							w.may[edge(i, j, f)] = true
						}
					}
				}
			}
		}
	}
}

// finds marks what node i has to find asking server s
func (w *disco) finds(i, s int) {
	for j := range w.xs {
		if j == i || w.xs[j] == nil {
			continue
		}
		for f := range w.feed[i] {
			if w.offered(s, j, f) {
				w.must[edge(i, j, f)] = true
			}
		}
	}
}

func (w *disco) lose(i, f int) {
	for _, m := range []map[[3]int]bool{w.must, w.may} {
		for e := range m {
			if (e[0] == i || e[1] == i) && (f == -1 || e[2] == f) {
				delete(m, e)
			}
		}
	}
}

func (w *disco) connOf(i, j int) *node.Conn {
	for _, c := range w.xs[i].n.Connections() {
		if c.PeerID() == w.xs[j].n.ID() {
			return c
		}
	}
	return nil
}

func (w *disco) names(pks []cipher.PubKey) string {
	var ss []string
	for _, pk := range pks {
		ss = append(ss, feedName(pk))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func (w *disco) want(i int) string {
	var pks []cipher.PubKey
	for f := range w.feed[i] {
		pks = append(pks, keys[f].pk)
	}
	return w.names(pks)
}

// told checks that the servers know what the nodes share
func (w *disco) told() string {
	for i, x := range w.xs {
		if x == nil {
			continue
		}
		if g := w.names(x.n.Feeds()); g != w.want(i) {
			return fmt.Sprintf("node %d shares %s, want %s", i, g, w.want(i))
		}
	}
	for s, d := range w.ds {
		var cs = map[cipher.PubKey]bool{}
		for _, pk := range d.s.Clients() {
			if cs[pk] {
				return fmt.Sprintf("server %d: a node is connected twice", s)
			}
			cs[pk] = true
		}
		for i, x := range w.xs {
			if x == nil || !w.at[i][s] {
				continue
			}
			var id = x.n.ID()
			if !cs[id] {
				return fmt.Sprintf("node %d is not connected to server %d", i, s)
			}
			delete(cs, id)
			var ask, ok = d.s.AskedBy(id)
			if g := w.names(ask); !ok || g != w.want(i) {
				return fmt.Sprintf("node %d looks for %s on server %d, it shares %s", i, g, s, w.want(i))
			}
			var addr = x.addr
			if d.udp {
				addr = x.udp
			}
			var ks, a, is = d.s.OfferOf(id)
			if want := w.pub[i] && w.lst[trans(d.udp)][i]; !want {
				if is && len(ks) > 0 {
					return fmt.Sprintf("node %d offers %s, it is not public or does not listen", i, w.names(ks))
				}
			} else if !is || w.names(ks) != w.want(i) || (a != addr && len(ks) > 0) {
				return fmt.Sprintf("node %d offers %s at %q on server %d, it shares %s at %q", i, w.names(ks), a, s, w.want(i), addr)
			}
		}
		if len(cs) > 0 {
			return fmt.Sprintf("server %d has %d extra clients", s, len(cs))
		}
	}
	return ""
}

// linked checks connections and subscriptions
func (w *disco) linked() string {
	for i, x := range w.xs {
		if x == nil {
			continue
		}
		var known int
		for j := range w.xs {
			if i == j || w.xs[j] == nil {
				continue
			}
			var c = w.connOf(i, j)
			var has = map[cipher.PubKey]bool{}
			if c != nil {
				known++
				if !w.met[pair(i, j)] {
					return fmt.Sprintf("node %d is connected with %d, nobody has told about", i, j)
				}
				for _, pk := range c.Feeds() {
					has[pk] = true
				}
			}
			for f := 0; f < w.fs; f++ {
				var e = edge(i, j, f)
				if w.must[e] && !has[keys[f].pk] {
					return fmt.Sprintf("node %d does not share feed %d with %d, connection: %v", i, f, j, c != nil)
				}
				if has[keys[f].pk] && !w.may[e] {
					return fmt.Sprintf("node %d shares feed %d with %d", i, f, j)
				}
				delete(has, keys[f].pk)
			}
			if len(has) > 0 {
				return fmt.Sprintf("node %d shares unknown feed with %d", i, j)
			}
		}
		if n := len(x.n.Connections()); n != known {
			return fmt.Sprintf("node %d has %d connections, %d with the nodes", i, n, known)
		}
	}
	return ""
}

// calm waits until all answers are processed
func (w *disco) calm() {
	eventually(w.t, "answers of discovery servers are processed", func() string {
		var n int
		for _, d := range w.ds {
			n += d.s.Busy()
		}
		if n != 0 {
			return fmt.Sprintf("%d in progress", n)
		}
		return ""
	})
}

func (w *disco) check() {
	w.calm()
	w.possible()
	eventually(w.t, "servers know feeds of the nodes", w.told)
	eventually(w.t, "nodes that share a feed are connected", w.linked)
	for _, x := range w.xs {
		if x != nil {
			x.checkBad(w.t)
		}
	}
}

func (w *disco) connect(i, s int) {
	var d, x, err = w.ds[s], w.xs[i], error(nil)
	pbt.Within(patience, "ConnectToDiscoveryServer", func() {
		if d.udp {
			err = x.n.UDP().ConnectToDiscoveryServer(d.addr)
		} else {
			err = x.n.TCP().ConnectToDiscoveryServer(d.addr)
		}
	})
	if err != nil {
		w.t.Fatalf("connect to discovery server: %v", err)
	}
	w.at[i][s] = true
	w.finds(i, s)
}

func (w *disco) boot(i int) {
	var x = w.xs[i]
	var err error
	w.feed[i] = map[int]bool{}
	if x.n, err = x.start(func(conf *node.Config) {
		conf.Public = w.pub[i]
		if !w.lst[0][i] {
			conf.TCP.Listen = ""
		}
		if !w.lst[1][i] {
			conf.UDP.Listen = ""
		}
		for s := range w.at[i] {
			if w.ds[s].udp {
				conf.UDP.Discovery = append(conf.UDP.Discovery, w.ds[s].addr)
			} else {
				conf.TCP.Discovery = append(conf.TCP.Discovery, w.ds[s].addr)
			}
		}
		if i == 0 {
			conf.TCP.Discovery = append(conf.TCP.Discovery, "10.200.0.1:1") // nobody
			conf.UDP.Discovery = append(conf.UDP.Discovery, "10.200.0.1:1")
		}
	}); err != nil {
		w.t.Fatalf("node %d: %v", i, err)
	}
}

func (w *disco) close(i int) {
	var x = w.xs[i]
	pbt.Within(patience, "Close of node", func() { x.n.Close() })
	x.checkBad(w.t)
	w.lose(i, -1)
	for p := range w.met {
		if p[0] == i || p[1] == i {
			delete(w.met, p)
		}
	}
	w.xs[i] = nil
	for j, y := range w.xs {
		if y == nil {
			continue
		}
		eventually(w.t, "connection with closed node is closed", func() string {
			for _, c := range y.n.Connections() {
				if c.PeerID() == x.n.ID() {
					return fmt.Sprintf("node %d", j)
				}
			}
			return ""
		})
	}
	for s, d := range w.ds {
		for _, pk := range d.s.Clients() {
			if pk == x.n.ID() {
				w.t.Fatalf("closed node %d is still connected to discovery server %d", i, s)
			}
		}
	}
}

func (w *disco) stop() {
	discovery.SetPause(nil)
	if w.t.Failed() {
		w.t.Logf("history: %s", strings.Join(w.log, "; "))
	}
	for _, d := range w.ds {
		d.s.Hold(false)
	}
	for _, x := range w.xs {
		if x != nil {
			pbt.Within(patience, "Close of node", func() { x.n.Close() })
		}
	}
	for _, d := range w.ds {
		d.s.Close()
	}
}

var discoCount uint32

func newDisco(t *rapid.T, c *pbt.Case) (w *disco) {
	w = &disco{t: t, c: c, must: map[[3]int]bool{}, may: map[[3]int]bool{}, met: map[[2]int]bool{}, fs: 3}
	for s := rapid.IntRange(1, 3).Draw(t, "servers"); s > 0; s-- {
		var d = &dserver{udp: rapid.IntRange(0, 2).Draw(t, "udp") == 0, fake: map[int]map[int]bool{}}
		d.addr = fmt.Sprintf("10.100.%d.%d:8008", atomic.AddUint32(&discoCount, 1)>>8, discoCount&0xff)
		d.s = discovery.StandIn(d.addr)
		d.s.Answers(rapid.IntRange(0, 6).Draw(t, "order"), rapid.Bool().Draw(t, "blanks"))
		w.ds = append(w.ds, d)
	}
	for i, n := 0, rapid.IntRange(2, 4).Draw(t, "nodes"); i < n; i++ {
		w.pub = append(w.pub, rapid.IntRange(0, 4).Draw(t, "public") > 0)
		w.lst[0] = append(w.lst[0], rapid.IntRange(0, 4).Draw(t, "tcp") > 0)
		w.lst[1] = append(w.lst[1], rapid.Bool().Draw(t, "udp"))
		w.at = append(w.at, map[int]bool{})
		w.feed = append(w.feed, map[int]bool{})
		var x = &tnode{i: i, db: memDB(), addr: newAddr(), udp: newAddr(), open: map[*node.Conn]int{}}
		w.xs = append(w.xs, x)
		for s := range w.ds {
			if rapid.IntRange(0, 2).Draw(t, "at once") == 0 {
				w.at[i][s] = true
			}
		}
		w.boot(i)
	}
	return
}

// share feed f
func (w *disco) doShare(i, f int) {
	var err error
	pbt.Within(patience, "Share", func() { err = w.xs[i].n.Share(keys[f].pk) })
	if err != nil {
		w.t.Fatalf("share: %v", err)
	}
	if !w.feed[i][f] {
		w.feed[i][f] = true
		for s := range w.at[i] {
			w.finds(i, s)
		}
	}
}

func (w *disco) doDontShare(i, f int) {
	pbt.Within(patience, "DontShare", func() { w.xs[i].n.DontShare(keys[f].pk) })
	delete(w.feed[i], f)
	w.lose(i, f)
}

func TestN10(t *testing.T) {
	pbt.Check(t, "discovery", 500, 5000, func(t *rapid.T, c *pbt.Case) {
		var w = newDisco(t, c)
		defer w.stop()
		var n = len(w.xs)
		w.note("public %v, listen %v, servers %v", w.pub, w.lst, w.at)
		w.check()
		for k := rapid.IntRange(4, 20).Draw(t, "ops"); k > 0; k-- {
			var i = rapid.IntRange(0, n-1).Draw(t, "node")
			var f = rapid.IntRange(0, w.fs-1).Draw(t, "feed")
			var s = rapid.IntRange(0, len(w.ds)-1).Draw(t, "server")
			if w.xs[i] == nil {
				continue
			}
			switch op := rapid.IntRange(0, 19).Draw(t, "op"); {
			case op < 8:
				w.note("%d shares %d", i, f)
				w.doShare(i, f)
			case op < 10:
				w.note("%d doesn't share %d", i, f)
				w.doDontShare(i, f)
			case op < 13:
				if w.at[i][s] {
					continue
				}
				w.note("%d connects to server %d", i, s)
				w.connect(i, s)
			case op < 14:
				w.note("server %d drops connections", s)
				w.ds[s].s.Drop()
			case op < 15: // the answer is late
				w.note("%d shares %d and doesn't, server %d is slow", i, f, s)
				if w.feed[i][f] {
					continue
				}
				w.ds[s].s.Hold(true)
				w.doShare(i, f)
				w.calm()
				w.possible()
				w.doDontShare(i, f)
				w.possible()
				w.ds[s].s.Hold(false)
			case op < 16: // late answer about node that has left the feed
				w.note("%d shares %d, server %d is slow", i, f, s)
				w.ds[s].s.Hold(true)
				w.doShare(i, f)
				w.calm()
				w.possible()
				w.ds[s].s.Hold(false)
			case op < 17:
				var j = rapid.IntRange(0, n-1).Draw(t, "named")
				var y = w.xs[j]
				if y == nil {
					continue
				}
				w.note("server %d names %d for %d", s, j, f)
				var info = &discovery.NodeInfo{PubKey: y.n.ID(), Address: y.addr}
				if w.ds[s].udp {
					info.Address = y.udp
				}
				var ns = []*discovery.NodeInfo{info}
				switch rapid.IntRange(0, 3).Draw(t, "and") {
				case 0:
					info.PubKey = rapid.SampledFrom(keys).Draw(t, "id").pk
				case 1:
					ns = append(ns, nil)
				case 2:
					ns = append(ns, &discovery.NodeInfo{PubKey: keys[0].pk, Address: "10.200.0.2:2"})
				}
				w.ds[s].s.Fake(keys[f].pk, ns...)
				w.ds[s].fake[f] = map[int]bool{j: true}
			case op < 18:
				var j = rapid.IntRange(0, n-1).Draw(t, "peer")
				if j == i || w.xs[j] == nil {
					continue
				}
				if c := w.connOf(i, j); c != nil {
					w.note("%d unsubscribes from %d of %d", i, f, j)
					c.Unsubscribe(keys[f].pk)
					delete(w.must, edge(i, j, f))
					delete(w.may, edge(i, j, f))
				}
			default:
				if rapid.IntRange(0, 2).Draw(t, "close") > 0 {
					continue
				}
				w.note("node %d is closed", i)
				w.close(i)
			}
			w.check()
		}
		// roots come to the nodes found
		var p = newPool()
		for i, x := range w.xs {
			if x == nil || len(w.feed[i]) == 0 {
				continue
			}
			var f int
			for f = range w.feed[i] {
				break
			}
			for g := range w.feed[i] {
				if g < f {
					f = g
				}
			}
			var o = newOwner(t, x, keys[f])
			var r = o.save(t, p, 1, drawRefs(t, p, 2))
			var cp = *r
			x.n.Publish(&cp)
			w.note("%d publishes %d", i, f)
			for e := range w.must {
				if e[2] != f || (e[0] != i && e[1] != i) {
					continue
				}
				var j = e[0] + e[1] - i
				eventually(t, fmt.Sprintf("node %d gets root of %d", j, f), func() string {
					var g, err = w.xs[j].n.Container().LastRoot(keys[f].pk, 1)
					if err != nil {
						return err.Error()
					}
					if g.Hash != r.Hash {
						return "another root"
					}
					return ""
				})
				c.NonTrivial()
			}
			break
		}
		w.check()
	})
}

// a node that is connecting to servers and changes its feeds at the same
// time: at the end the servers know what it shares
func TestN10Concurrent(t *testing.T) {
	pbt.Check(t, "discovery of a busy node", 400, 4000, func(t *rapid.T, c *pbt.Case) {
		var w = newDisco(t, c)
		defer w.stop()
		w.check()
		var delays = rapid.SliceOfN(rapid.IntRange(0, 3), 4, 16).Draw(t, "delays")
		var cur uint32
		discovery.SetPause(func() {
			var d = delays[int(atomic.AddUint32(&cur, 1))%len(delays)]
			time.Sleep(time.Duration(d) * 100 * time.Microsecond)
		})
		type act struct{ op, f, s int }
		var ws []func()
		var leaves = -1
		if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
			leaves = rapid.IntRange(0, len(w.xs)-1).Draw(t, "closed")
			c.Note("node %d is closed", leaves)
		}
		for i := range w.xs {
			i := i
			for g := rapid.IntRange(1, 2).Draw(t, "threads"); g > 0; g-- {
				var as []act
				for k := rapid.IntRange(1, 4).Draw(t, "actions"); k > 0; k-- {
					var a = act{rapid.IntRange(0, 5).Draw(t, "op"), rapid.IntRange(0, w.fs-1).Draw(t, "feed"), rapid.IntRange(0, len(w.ds)-1).Draw(t, "server")}
					if a.op == 4 {
						if w.at[i][a.s] || i == leaves {
							a.op = 0
						} else {
							w.at[i][a.s] = true
						}
					}
					as = append(as, a)
				}
				c.Note("node %d: %v", i, as)
				if len(as) > 1 {
					c.NonTrivial()
				}
				ws = append(ws, func() {
					for _, a := range as {
						switch a.op {
						case 0, 1, 2:
							w.xs[i].n.Share(keys[a.f].pk)
						case 3:
							w.xs[i].n.DontShare(keys[a.f].pk)
						case 4:
							if w.ds[a.s].udp {
								w.xs[i].n.UDP().ConnectToDiscoveryServer(w.ds[a.s].addr)
							} else {
								w.xs[i].n.TCP().ConnectToDiscoveryServer(w.ds[a.s].addr)
							}
						case 5:
							w.ds[a.s].s.Drop()
						}
					}
				})
			}
		}
		var left *tnode
		if leaves != -1 {
			left = w.xs[leaves]
			var d = rapid.IntRange(0, 10).Draw(t, "later")
			ws = append(ws, func() {
				time.Sleep(time.Duration(d) * 100 * time.Microsecond)
				left.n.Close()
			})
		}
		pbt.Within(patience, "concurrent actions", func() {
			var done = make(chan struct{})
			for _, f := range ws {
				f := f
				go func() { f(); done <- struct{}{} }()
			}
			for range ws {
				<-done
			}
		})
		w.calm()
		if left != nil {
			left.checkBad(t)
			w.xs[leaves] = nil
		}
		for i, x := range w.xs {
			if x == nil {
				continue
			}
			w.feed[i] = map[int]bool{}
			for f := 0; f < w.fs; f++ {
				if x.n.IsSharing(keys[f].pk) {
					w.feed[i][f] = true
				}
			}
		}
		eventually(t, "servers know feeds of the nodes", w.told)
		w.calm()
		// a feed is shared by both sides of a connection
		for i, x := range w.xs {
			if x == nil {
				continue
			}
			x.checkBad(t)
			for _, cn := range x.n.Connections() {
				if left != nil && cn.PeerID() == left.n.ID() {
					continue // is being closed
				}
				for _, pk := range cn.Feeds() {
					if !x.n.IsSharing(pk) {
						t.Fatalf("node %d doesn't share feed %s of its connection", i, feedName(pk))
					}
				}
			}
		}
	})
}
