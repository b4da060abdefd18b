package tnode

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"

	"verif/h/pbt"
)

// a connection of the model
type mconn struct {
	dialer int  // who dialed
	tcp    bool // transport
	addr   string
	feeds  map[int]bool
}

// model of nodes and connections
type agreement struct {
	t   *rapid.T
	c   *pbt.Case
	xs  []*tnode
	fs  int
	pub []bool

	conn  map[[2]int]*mconn
	share []map[int]bool

	conns, disc []int
	events      [][]string

	why [][]string // reasons of closing: nil, rejected, error, some (rejected or error)

	reject []int  // 0 accept, 1 reject, 2 share
	refuse []bool // OnConnect rejects connections
	log    []string
}

var errRejected = errors.New("rejected by test")
var errRefused = errors.New("refused by test")

func newAgreement(t *rapid.T, c *pbt.Case, n, fs int) (w *agreement) {
	w = &agreement{t: t, c: c, fs: fs, conn: map[[2]int]*mconn{}}
	for i := 0; i < n; i++ {
		var pub = rapid.IntRange(0, 3).Draw(t, "public") > 0
		w.pub = append(w.pub, pub)
		var x = newNode(t, i, func(conf *node.Config) { conf.Public = pub })
		w.xs = append(w.xs, x)
		w.share = append(w.share, map[int]bool{})
		w.conns = append(w.conns, 0)
		w.disc = append(w.disc, 0)
		w.events = append(w.events, nil)
		w.reject = append(w.reject, 0)
		w.refuse = append(w.refuse, false)
		w.why = append(w.why, nil)
	}
	return
}

func (w *agreement) stop() {
	for _, x := range w.xs {
		x.stop()
	}
	if w.t.Failed() {
		w.t.Logf("history: %s", strings.Join(w.log, "; "))
	}
}

func (w *agreement) note(format string, args ...interface{}) {
	w.c.Note(format, args...)
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *agreement) connOf(i, j int) *node.Conn {
	for _, c := range w.xs[i].n.Connections() {
		if c.PeerID() == w.xs[j].n.ID() {
			return c
		}
	}
	return nil
}

func feedName(pk cipher.PubKey) string {
	for f, k := range keys {
		if k.pk == pk {
			return fmt.Sprint(f)
		}
	}
	if pk == (cipher.PubKey{}) {
		return "blank"
	}
	return pk.Hex()
}

func feedNames(pks []cipher.PubKey) string {
	var ss []string
	for _, pk := range pks {
		ss = append(ss, feedName(pk))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

func setNames(m map[int]bool) string {
	var ss []string
	for f := range m {
		ss = append(ss, fmt.Sprint(f))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// who is index of the node with given id
func (w *agreement) who(id cipher.PubKey) string {
	for i, x := range w.xs {
		if x.n.ID() == id {
			return fmt.Sprint(i)
		}
	}
	return "nobody"
}

func (w *agreement) peers(cs []*node.Conn) string {
	var ss []string
	for _, c := range cs {
		ss = append(ss, w.who(c.PeerID()))
	}
	sort.Strings(ss)
	return strings.Join(ss, ",")
}

// diff of a node and its model, or blank string
func (w *agreement) diff(i int) string {
	var n = w.xs[i].n
	if a, b := feedNames(n.Feeds()), setNames(w.share[i]); a != b {
		return fmt.Sprintf("Feeds: %s, want %s", a, b)
	}
	var all, idle []string
	var of = make([][]string, w.fs)
	for p, m := range w.conn {
		if p[0] != i && p[1] != i {
			continue
		}
		var j = p[0] + p[1] - i
		all = append(all, fmt.Sprint(j))
		if len(m.feeds) == 0 {
			idle = append(idle, fmt.Sprint(j))
		}
		for f := range m.feeds {
			of[f] = append(of[f], fmt.Sprint(j))
		}
		var c = w.connOf(i, j)
		if c == nil {
			return fmt.Sprintf("no connection with %d", j)
		}
		if a, b := feedNames(c.Feeds()), setNames(m.feeds); a != b {
			return fmt.Sprintf("feeds of connection with %d: %s, want %s", j, a, b)
		}
		if c.IsOutgoing() != (m.dialer == i) || c.IsIncoming() == c.IsOutgoing() || c.IsTCP() != m.tcp || c.Node() != n {
			return fmt.Sprintf("connection with %d: outgoing %t, tcp %t", j, c.IsOutgoing(), c.IsTCP())
		}
		if m.dialer == i && c.Address() != m.addr {
			return fmt.Sprintf("connection with %d: address %s, want %s", j, c.Address(), m.addr)
		}
	}
	sort.Strings(all)
	sort.Strings(idle)
	if a, b := w.peers(n.Connections()), strings.Join(all, ","); a != b {
		return fmt.Sprintf("Connections: %s, want %s", a, b)
	}
	if a, b := w.peers(n.ConnectionsOfFeed(cipher.PubKey{})), strings.Join(idle, ","); a != b {
		return fmt.Sprintf("idle: %s, want %s", a, b)
	}
	for f := range of {
		sort.Strings(of[f])
		if a, b := w.peers(n.ConnectionsOfFeed(keys[f].pk)), strings.Join(of[f], ","); a != b {
			return fmt.Sprintf("ConnectionsOfFeed %d: %s, want %s", f, a, b)
		}
		if n.IsSharing(keys[f].pk) != w.share[i][f] {
			return fmt.Sprintf("IsSharing %d: %t", f, !w.share[i][f])
		}
	}
	if n.IsSharing(cipher.PubKey{}) {
		return "blank feed is shared"
	}
	var x = w.xs[i]
	x.mx.Lock()
	defer x.mx.Unlock()
	if x.conns != w.conns[i] || x.disc != w.disc[i] {
		return fmt.Sprintf("OnConnect %d, OnDisconnect %d, want %d, %d", x.conns, x.disc, w.conns[i], w.disc[i])
	}
	var a, b = append([]string(nil), x.events...), append([]string(nil), w.events[i]...)
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, ";") != strings.Join(b, ";") {
		return fmt.Sprintf("callbacks: %v, want %v", x.events, w.events[i])
	}
	for k, want := range w.why[i] {
		var got = x.why[k]
		var ok bool
		switch want {
		case "nil":
			ok = got == nil
		case "rejected":
			ok = got == errRefused
		case "error":
			ok = got != nil && got != errRefused
		default:
			ok = got != nil
		}
		if !ok {
			w.t.Fatalf("node %d: OnDisconnect %d of reason %v, want %s", i, k, got, want)
		}
	}
	return ""
}

// closed counts OnDisconnect of a node and the reason of it
func (w *agreement) closed(i int, why string) {
	w.disc[i]++
	w.why[i] = append(w.why[i], why)
}

func (w *agreement) event(i int, what string, j, f int) {
	w.events[i] = append(w.events[i], what+" "+w.xs[j].n.ID().Hex()+" "+keys[f].pk.Hex())
}

func (w *agreement) settle() {
	for i, x := range w.xs {
		eventually(w.t, fmt.Sprintf("node %d is what was agreed", i), func() string { return w.diff(i) })
		x.checkBad(w.t)
	}
}

func (w *agreement) connect(i, j int, tcp bool) {
	var x, y = w.xs[i], w.xs[j]
	var c *node.Conn
	var err error
	var addr = y.addr
	pbt.Within(patience, "Connect", func() {
		if tcp {
			c, err = x.n.TCP().Connect(addr)
		} else {
			addr = y.udp
			c, err = x.n.UDP().Connect(addr)
		}
	})
	switch m := w.conn[pair(i, j)]; {
	case i == j:
		if err == nil {
			w.t.Fatalf("connected to itself")
		}
	case m == nil:
		if err != nil {
			w.t.Fatalf("connect: %v", err)
		}
		if c.PeerID() != y.n.ID() {
			w.t.Fatalf("connected to another peer")
		}
		w.conns[i]++
		w.conns[j]++
		switch {
		case w.refuse[i] && w.refuse[j]:
			w.closed(i, "some")
			w.closed(j, "some")
		case w.refuse[i]:
			w.closed(i, "rejected")
			w.closed(j, "error")
		case w.refuse[j]:
			w.closed(i, "error")
			w.closed(j, "rejected")
		default:
			w.conn[pair(i, j)] = &mconn{dialer: i, tcp: tcp, addr: addr, feeds: map[int]bool{}}
			return
		}
		w.settle()
		pbt.Within(patience, "Subscribe of a rejected connection", func() { err = c.Subscribe(keys[0].pk) })
		if err == nil {
			w.t.Fatalf("rejected connection subscribes")
		}
		w.share[i][0] = true
	case m.dialer == i && m.tcp == tcp:
		if err != nil || c != w.connOf(i, j) {
			w.t.Fatalf("existing connection is not returned: %v", err)
		}
	default:
		if err == nil {
			w.t.Fatalf("second connection with the same peer")
		}
	}
}

func (w *agreement) run(n int) {
	var t = w.t
	var i = rapid.IntRange(0, n-1).Draw(t, "node")
	var f = rapid.IntRange(0, w.fs-1).Draw(t, "feed")
	var pk = keys[f].pk
	var own [][2]int
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a != b && w.conn[pair(a, b)] != nil {
				own = append(own, [2]int{a, b})
			}
		}
	}
	var op = rapid.IntRange(0, 19).Draw(t, "op")
	if op >= 4 && op < 14 && len(own) == 0 {
		op = 0
	}
	var e [2]int
	if len(own) > 0 {
		e = rapid.SampledFrom(own).Draw(t, "connection")
	}
	var p = pair(e[0], e[1])
	switch {
	case op < 3:
		var j = rapid.IntRange(0, n-1).Draw(t, "to")
		var tcp = rapid.Bool().Draw(t, "tcp")
		w.note("%d connects to %d, tcp %t", i, j, tcp)
		w.connect(i, j, tcp)
	case op < 4:
		w.note("%d shares %d", i, f)
		if err := w.xs[i].n.Share(pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		w.share[i][f] = true
	case op < 9:
		i, j := e[0], e[1]
		w.note("%d subscribes to %d of %d (%d)", i, f, j, w.reject[j])
		var err error
		pbt.Within(patience, "Subscribe", func() { err = w.connOf(i, j).Subscribe(pk) })
		var had = w.conn[p].feeds[f]
		w.share[i][f] = true
		if !had {
			w.event(j, "sub", i, f)
			if w.reject[j] == 2 {
				w.share[j][f] = true
			}
		}
		var ok = had || w.share[j][f] && w.reject[j] != 1
		if ok != (err == nil) {
			t.Fatalf("subscribe: %v, want success %t", err, ok)
		}
		if !had && w.reject[j] == 1 && (err == nil || err.Error() != errRejected.Error()) {
			t.Fatalf("subscribe: %v, want %v", err, errRejected)
		}
		if ok {
			w.conn[p].feeds[f] = true
		}
	case op < 11:
		w.note("%d unsubscribes from %d of %d", e[0], f, e[1])
		w.connOf(e[0], e[1]).Unsubscribe(pk)
		if w.conn[p].feeds[f] {
			w.event(e[1], "unsub", e[0], f)
			delete(w.conn[p].feeds, f)
		}
	case op < 12:
		w.note("%d lists feeds of %d", e[0], e[1])
		var fs, err = w.connOf(e[0], e[1]).RemoteFeeds()
		if !w.pub[e[1]] {
			if err == nil {
				t.Fatalf("feeds of not public node")
			}
			return
		}
		if a, b := feedNames(fs), setNames(w.share[e[1]]); a != b || err != nil {
			t.Fatalf("RemoteFeeds: %s, %v, want %s", a, err, b)
		}
	case op < 14:
		w.note("%d closes connection with %d", e[0], e[1])
		var c, d = w.connOf(e[0], e[1]), w.connOf(e[1], e[0])
		pbt.Within(patience, "Close of connection", func() { c.Close() })
		delete(w.conn, p)
		w.closed(e[0], "nil")
		w.closed(e[1], "error")
		w.settle()
		if err := c.Subscribe(pk); err == nil {
			t.Fatalf("closed connection subscribes")
		}
		w.share[e[0]][f] = true
		if rapid.Bool().Draw(t, "again") {
			c.Close()
			d.Close()
			d.Unsubscribe(pk)
		}
	case op < 16:
		w.note("%d does not share %d", i, f)
		if err := w.xs[i].n.DontShare(pk); err != nil {
			t.Fatalf("DontShare: %v", err)
		}
		delete(w.share[i], f)
		for p, m := range w.conn {
			if (p[0] == i || p[1] == i) && m.feeds[f] {
				w.event(p[0]+p[1]-i, "unsub", i, f)
				delete(m.feeds, f)
			}
		}
	case op < 18:
		var m = rapid.IntRange(0, 2).Draw(t, "callback")
		w.refuse[i] = rapid.IntRange(0, 3).Draw(t, "refuse connections") == 0
		w.note("callback of %d: %d, refuse connections %t", i, m, w.refuse[i])
		w.reject[i] = m
		var x = w.xs[i]
		x.mx.Lock()
		if x.rejectConn = nil; w.refuse[i] {
			x.rejectConn = func(*node.Conn) error { return errRefused }
		}
		switch m {
		case 0:
			x.rejectSub = nil
		case 1:
			x.rejectSub = func(*node.Conn, cipher.PubKey) error { return errRejected }
		case 2:
			x.rejectSub = func(c *node.Conn, pk cipher.PubKey) error { return x.n.Share(pk) }
		}
		x.mx.Unlock()
	case op < 19:
		w.note("blank feed")
		if err := w.xs[i].n.Share(cipher.PubKey{}); err == nil {
			t.Fatalf("blank feed is shared")
		}
		w.xs[i].n.DontShare(cipher.PubKey{})
		if len(own) > 0 {
			if err := w.connOf(e[0], e[1]).Subscribe(cipher.PubKey{}); err == nil {
				t.Fatalf("subscribed to blank feed")
			}
			w.connOf(e[0], e[1]).Unsubscribe(cipher.PubKey{})
		}
	default:
		w.note("%d connects to nobody", i)
		if _, err := w.xs[i].n.TCP().Connect(newAddr()); err == nil {
			t.Fatalf("connected to nobody")
		}
		if _, err := w.xs[i].n.UDP().Connect(newAddr()); err == nil {
			t.Fatalf("connected to nobody")
		}
	}
}

func TestN03History(t *testing.T) {
	pbt.Check(t, "history", 900, 8000, func(t *rapid.T, c *pbt.Case) {
		var n = rapid.IntRange(2, 4).Draw(t, "nodes")
		var w = newAgreement(t, c, n, rapid.IntRange(1, 3).Draw(t, "feeds"))
		defer w.stop()
		var subs int
		for k := rapid.IntRange(4, 30).Draw(t, "ops"); k > 0; k-- {
			w.run(n)
			w.settle()
		}
		for _, es := range w.events {
			subs += len(es)
		}
		time.Sleep(time.Millisecond)
		w.settle()
		if subs > 0 {
			c.NonTrivial()
		}
	})
}

// consistency of lists of a node, and agreement with its peers
func (w *agreement) consistent(i int) string {
	var n = w.xs[i].n
	var has = map[*node.Conn]bool{}
	for _, c := range n.Connections() {
		has[c] = true
		var j int
		if j = len(w.xs); true {
			for k, y := range w.xs {
				if y.n.ID() == c.PeerID() {
					j = k
				}
			}
		}
		if j == len(w.xs) {
			return "connection with unknown peer"
		}
		var d = w.connOf(j, i)
		if d == nil {
			return fmt.Sprintf("%d has no connection with %d", j, i)
		}
		var a, b = feedNames(c.Feeds()), feedNames(d.Feeds())
		if a != b {
			return fmt.Sprintf("feeds of connection: %d has %s, %d has %s", i, a, j, b)
		}
		for _, pk := range c.Feeds() {
			if !n.IsSharing(pk) {
				return "connection has feed the node does not share"
			}
			var ok bool
			for _, e := range n.ConnectionsOfFeed(pk) {
				ok = ok || e == c
			}
			if !ok {
				return "connection of feed is not listed"
			}
		}
	}
	var idle = map[*node.Conn]bool{}
	for _, c := range n.ConnectionsOfFeed(cipher.PubKey{}) {
		idle[c] = true
		if !has[c] || len(c.Feeds()) != 0 {
			return fmt.Sprintf("idle connection with %s, connected %t, feeds %s", w.who(c.PeerID()), has[c], feedNames(c.Feeds()))
		}
	}
	for c := range has {
		if len(c.Feeds()) == 0 && !idle[c] {
			return "idle connection is not listed"
		}
	}
	for f := 0; f < w.fs; f++ {
		for _, c := range n.ConnectionsOfFeed(keys[f].pk) {
			if !has[c] {
				return fmt.Sprintf("closed connection with %s has feed %d", w.who(c.PeerID()), f)
			}
		}
	}
	var x = w.xs[i]
	x.mx.Lock()
	defer x.mx.Unlock()
	if x.conns-x.disc != len(has) {
		return fmt.Sprintf("OnConnect %d, OnDisconnect %d, connections %d", x.conns, x.disc, len(has))
	}
	return ""
}

type concOp struct{ op, i, j, f int }

// concurrent operations, then the peers agree
func TestN03Concurrent(t *testing.T) {
	pbt.Check(t, "concurrent", 600, 6000, func(t *rapid.T, c *pbt.Case) {
		var n = rapid.IntRange(2, 3).Draw(t, "nodes")
		var w = newAgreement(t, c, n, 2)
		defer w.stop()
		var started = rapid.Bool().Draw(t, "connected")
		if started {
			for i := 1; i < n; i++ {
				w.connect(i, rapid.IntRange(0, i-1).Draw(t, "to"), rapid.Bool().Draw(t, "tcp"))
			}
			for i := 0; i < n; i++ {
				for f := 0; f < w.fs; f++ {
					if rapid.Bool().Draw(t, "share") {
						w.xs[i].n.Share(keys[f].pk)
					}
				}
			}
		}
		var max = 11
		if rapid.Bool().Draw(t, "no closing") {
			max = 9
		}
		var noDontShare = rapid.Bool().Draw(t, "no DontShare")
		var gs [][]concOp
		for g := rapid.IntRange(2, 5).Draw(t, "goroutines"); g > 0; g-- {
			var ops []concOp
			for k := rapid.IntRange(2, 20).Draw(t, "ops"); k > 0; k-- {
				var o = concOp{op: rapid.IntRange(0, max).Draw(t, "op"), i: rapid.IntRange(0, n-1).Draw(t, "i"), f: rapid.IntRange(0, w.fs-1).Draw(t, "f")}
				o.j = (o.i + rapid.IntRange(1, n-1).Draw(t, "j")) % n
				if noDontShare && o.op == 8 {
					o.op = 7
				}
				ops = append(ops, o)
			}
			gs = append(gs, ops)
		}
		w.note("%v", gs)
		pbt.Within(patience, "concurrent operations", func() {
			var wg sync.WaitGroup
			for _, ops := range gs {
				wg.Add(1)
				go func(ops []concOp) {
					defer wg.Done()
					for _, o := range ops {
						var x, y = w.xs[o.i], w.xs[o.j]
						var pk = keys[o.f].pk
						var c = w.connOf(o.i, o.j)
						switch {
						case o.op < 1 || c == nil:
							if o.f == 0 {
								x.n.TCP().Connect(y.addr)
							} else {
								x.n.UDP().Connect(y.udp)
							}
						case o.op < 5:
							var err = c.Subscribe(pk)
							if err == node.ErrTimeout {
								x.fail("Subscribe: %v", err)
							}
						case o.op < 7:
							c.Unsubscribe(pk)
						case o.op < 8:
							x.n.Share(pk)
						case o.op < 9:
							x.n.DontShare(pk)
						case o.op < 10:
							c.Feeds()
							x.n.ConnectionsOfFeed(pk)
							c.RemoteFeeds()
						default:
							c.Close()
						}
					}
				}(ops)
			}
			wg.Wait()
		})
		for i, x := range w.xs {
			eventually(t, fmt.Sprintf("node %d agrees with its peers", i), func() string { return w.consistent(i) })
			x.checkBad(t)
		}
		time.Sleep(2 * time.Millisecond)
		for i, x := range w.xs {
			eventually(t, fmt.Sprintf("node %d agrees with its peers", i), func() string { return w.consistent(i) })
			x.checkBad(t)
		}
		c.NonTrivial()
	})
}
