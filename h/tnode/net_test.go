package tnode

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// network of nodes and its model
type network struct {
	t   *rapid.T
	log []string
	c   *pbt.Case
	xs  []*tnode

	conn  map[[2]int]*node.Conn   // connection i dialed to j
	sub   map[[2]int]map[int]bool // feeds of a connection (i < j)
	share []map[int]bool          // feeds of a node
	own   map[int]*owner          // owners of feeds
	got   []map[int]bool          // could get something of the feed

	before map[int]int // roots filled before restart
	p      *pool
}

func (w *network) note(format string, args ...interface{}) {
	w.c.Note(format, args...)
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func pair(i, j int) [2]int {
	if i > j {
		i, j = j, i
	}
	return [2]int{i, j}
}

func newNetwork(t *rapid.T, c *pbt.Case, n int, change func(i int, conf *node.Config)) (w *network) {
	w = &network{t: t, c: c, conn: map[[2]int]*node.Conn{}, sub: map[[2]int]map[int]bool{}, own: map[int]*owner{}, p: newPool(), before: map[int]int{}}
	for i := 0; i < n; i++ {
		w.xs = append(w.xs, newNode(t, i, func(conf *node.Config) {
			if change != nil {
				change(i, conf)
			}
		}))
		w.share = append(w.share, map[int]bool{})
		w.got = append(w.got, map[int]bool{})
	}
	return
}

func (w *network) stop() {
	if w.t.Failed() {
		w.t.Logf("history: %s", strings.Join(w.log, "; "))
	}
	for _, x := range w.xs {
		x.stop()
	}
}

// connOf is connection of i with j at i
func (w *network) connOf(i, j int) (c *node.Conn) {
	for _, c = range w.xs[i].n.Connections() {
		if c.PeerID() == w.xs[j].n.ID() {
			return
		}
	}
	return nil
}

func (w *network) connect(i, j int, udp bool) {
	var x, y = w.xs[i], w.xs[j]
	var c *node.Conn
	var err error
	pbt.Within(patience, "Connect", func() {
		if udp {
			c, err = x.n.UDP().Connect(y.udp)
		} else {
			c, err = x.n.TCP().Connect(y.addr)
		}
	})
	if err != nil {
		w.t.Fatalf("connect %d to %d: %v", i, j, err)
	}
	if c.PeerID() != y.n.ID() {
		w.t.Fatalf("connect %d to %d: another peer", i, j)
	}
	w.sub[pair(i, j)] = map[int]bool{}
	eventually(w.t, "peer has the connection", func() string {
		if w.connOf(j, i) == nil {
			return "no"
		}
		return ""
	})
}

// subscribe i to feed f of j
func (w *network) subscribe(i, j, f int) {
	var c = w.connOf(i, j)
	var err error
	pbt.Within(patience, "Subscribe", func() { err = c.Subscribe(keys[f].pk) })
	w.share[i][f] = true
	if !w.share[j][f] {
		if err == nil {
			w.t.Fatalf("subscribed to feed the peer does not share")
		}
		return
	}
	if err != nil {
		w.t.Fatalf("subscribe %d to %d of %d: %v", i, f, j, err)
	}
	w.sub[pair(i, j)][f] = true
	w.mark()
}

// drop a connection, by i
func (w *network) drop(i, j int) {
	pbt.Within(patience, "Close of connection", func() { w.connOf(i, j).Close() })
	w.dropped(i, j)
}

func (w *network) dropped(i, j int) {
	delete(w.sub, pair(i, j))
	eventually(w.t, "peers forget a closed connection", func() string {
		if w.connOf(i, j) != nil || w.connOf(j, i) != nil {
			return "no"
		}
		return ""
	})
}

// restart node i
func (w *network) restart(i int) {
	var x = w.xs[i]
	pbt.Within(patience, "Close of node", func() { x.n.Close() })
	for p := range w.sub {
		if p[0] == i || p[1] == i {
			w.dropped(p[0], p[1])
		}
	}
	x.checkBad(w.t)
	x.mx.Lock()
	w.before[i] = len(x.full)
	x.mx.Unlock()
	var err error
	if x.n, err = x.start(nil); err != nil {
		w.t.Fatalf("node %d, again: %v", i, err)
	}
	w.share[i] = map[int]bool{}
	for f, o := range w.own {
		if o.x != x {
			continue
		}
		o.up = map[uint64]*skyobject.Unpack{}
		if err = x.n.Share(keys[f].pk); err != nil {
			w.t.Fatalf("share: %v", err)
		}
		w.share[i][f] = true
		if o.last == nil {
			continue
		}
		var r, err = x.n.Container().LastRoot(keys[f].pk, o.last.Nonce)
		if err != nil || r.Hash != o.last.Hash {
			w.t.Fatalf("last root of %d after restart: %v %v", f, r, err)
		}
	}
	authentic(w.t, x)
}

// preview feed f of j by i
func (w *network) preview(i, j, f int) {
	var o = w.own[f]
	var had, _ = w.xs[i].n.Container().Heads(keys[f].pk)
	var seen bool
	var err error
	pbt.Within(patience, "Preview", func() {
		err = w.connOf(i, j).Preview(keys[f].pk, func(pack registry.Pack, r *registry.Root) bool {
			seen = true
			if r.Pub != keys[f].pk {
				w.t.Fatalf("preview of another feed")
			}
			var want = o.history[[2]uint64{r.Nonce, r.Seq}]
			if want == nil || want.Hash != r.Hash {
				w.t.Fatalf("preview of unknown root %d/%d", r.Nonce, r.Seq)
			}
			var c = newCounter(getIn(w.p.vals))
			for _, d := range want.Refs {
				c.object(d.Hash)
			}
			for h := range c.count {
				var val, err = pack.Get(h)
				if err == nil && !bytes.Equal(val, w.p.vals[h]) {
					w.t.Fatalf("preview: object %s is another", short(h))
				}
				if err != nil && j == o.x.i && r.Seq == o.last.Seq {
					w.t.Fatalf("preview: object %s: %v", short(h), err)
				}
			}
			return false
		})
	})
	if seen && err != nil {
		w.t.Fatalf("preview: %v", err)
	}
	if !w.share[j][f] && err == nil {
		w.t.Fatalf("preview of a feed that is not shared")
	}
	if j == o.x.i && w.share[j][f] && o.last != nil && err != nil {
		w.t.Fatalf("preview: %v", err)
	}
	if !w.share[i][f] {
		var has, _ = w.xs[i].n.Container().Heads(keys[f].pk)
		if len(has) != len(had) {
			w.t.Fatalf("preview stores")
		}
	}
}

func (w *network) unsubscribe(i, j, f int) {
	w.connOf(i, j).Unsubscribe(keys[f].pk)
	delete(w.sub[pair(i, j)], f)
}

func (w *network) dontShare(i, f int) {
	w.xs[i].n.DontShare(keys[f].pk)
	delete(w.share[i], f)
	for p, m := range w.sub {
		if p[0] == i || p[1] == i {
			delete(m, f)
		}
	}
}

// reach is nodes the feed reaches from its owner
func (w *network) reach(f int) (r map[int]bool) {
	r = map[int]bool{}
	var o = w.own[f]
	if o == nil || !w.share[o.x.i][f] {
		return
	}
	var walk func(i int)
	walk = func(i int) {
		if r[i] {
			return
		}
		r[i] = true
		for p, m := range w.sub {
			if m[f] && p[0] == i {
				walk(p[1])
			} else if m[f] && p[1] == i {
				walk(p[0])
			}
		}
	}
	walk(o.x.i)
	return
}

// mark nodes that can get something: from the owner, or from a node
// that could get something before
func (w *network) mark() {
	for f, o := range w.own {
		if o.last != nil {
			w.got[o.x.i][f] = true
		}
		for again := true; again; {
			again = false
			for p, m := range w.sub {
				if m[f] && w.got[p[0]][f] != w.got[p[1]][f] {
					w.got[p[0]][f], w.got[p[1]][f], again = true, true, true
				}
			}
		}
	}
}

func (w *network) publish(f int, nonce uint64) {
	var o = w.own[f]
	var r = o.save(w.t, w.p, nonce, drawRefs(w.t, w.p, 3))
	var x = *r
	o.x.n.Publish(&x)
	w.note("publish %d %d/%d", f, nonce, r.Seq)
	w.mark()
}

// agree waits until both sides of every connection agree with the model
func (w *network) agree(fs int) {
	eventually(w.t, "peers agree about feeds", func() string {
		for p, m := range w.sub {
			for _, d := range [][2]int{{p[0], p[1]}, {p[1], p[0]}} {
				var c = w.connOf(d[0], d[1])
				if c == nil {
					return fmt.Sprintf("%d has no connection with %d", d[0], d[1])
				}
				var has = map[cipher.PubKey]bool{}
				for _, pk := range c.Feeds() {
					has[pk] = true
				}
				for f := 0; f < fs; f++ {
					if has[keys[f].pk] != m[f] {
						return fmt.Sprintf("feed %d of connection of %d with %d: %v, want %v", f, d[0], d[1], has[keys[f].pk], m[f])
					}
				}
				if len(has) != len(m) {
					return "extra feeds"
				}
			}
		}
		return ""
	})
}

// settle waits until the last roots are everywhere
func (w *network) settle(fs int) {
	w.agree(fs)
	w.mark()
	for f, o := range w.own {
		if o.last == nil {
			continue
		}
		for i := range w.reach(f) {
			var x = w.xs[i]
			eventually(w.t, fmt.Sprintf("node %d gets last root (%d/%d) of feed %d", i, o.last.Nonce, o.last.Seq, f), func() string {
				var r, err = x.n.Container().LastRoot(keys[f].pk, o.last.Nonce)
				if err != nil {
					return fmt.Sprintf("%v, broken: %v", err, x.broken())
				}
				if r.Seq != o.last.Seq || r.Hash != o.last.Hash {
					return fmt.Sprintf("%d, broken: %v", r.Seq, x.broken())
				}
				return ""
			})
			complete(w.t, x, o.last.Refs, w.p.vals)
		}
	}
	// nobody else
	for i, x := range w.xs {
		for f := range w.own {
			if w.got[i][f] || w.own[f].x == x {
				continue
			}
			var hs, _ = x.n.Container().Heads(keys[f].pk)
			if len(hs) != 0 {
				w.t.Fatalf("node %d, that is not subscribed to %d, has heads %v", i, f, hs)
			}
		}
		if len(w.got[i]) == 0 {
			x.db.cx.Iterate(func(key cipher.SHA256, _ uint32, val []byte) error {
				w.t.Fatalf("node %d, that is not subscribed, has object %x", i, val)
				return nil
			})
		}
		x.checkBad(w.t)
	}
}

func TestN02(t *testing.T) {
	pbt.Check(t, "publish", 600, 6000, func(t *rapid.T, c *pbt.Case) {
		var start = time.Now()
		var n = rapid.IntRange(2, 5).Draw(t, "nodes")
		const fs = 2
		var w = newNetwork(t, c, n, func(_ int, conf *node.Config) {
			if rapid.IntRange(0, 3).Draw(t, "no callbacks") == 0 {
				conf.OnConnect, conf.OnDisconnect = nil, nil
				conf.OnSubscribeRemote, conf.OnUnsubscribeRemote = nil, nil
				conf.OnRootReceived, conf.OnRootFilled, conf.OnFillingBreaks = nil, nil, nil
			}
		})
		defer w.stop()
		for f := 0; f < fs; f++ {
			var i = rapid.IntRange(0, n-1).Draw(t, "owner")
			w.own[f] = newOwner(t, w.xs[i], keys[f])
			w.share[i][f] = true
			w.note("%d owns %d", i, f)
		}
		for j := 1; j < n; j++ {
			var i = rapid.IntRange(0, j-1).Draw(t, "connect to")
			var udp = rapid.Bool().Draw(t, "udp")
			if rapid.Bool().Draw(t, "dial") {
				w.connect(i, j, udp)
			} else {
				w.connect(j, i, udp)
			}
			w.note("%d-%d", i, j)
		}
		if n > 2 && rapid.Bool().Draw(t, "cycle") {
			var i, j = rapid.IntRange(0, n-1).Draw(t, "i"), rapid.IntRange(0, n-1).Draw(t, "j")
			if i != j && w.sub[pair(i, j)] == nil {
				w.connect(i, j, false)
				w.note("%d-%d", i, j)
			}
		}
		var edges [][2]int
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if w.sub[pair(i, j)] != nil {
					edges = append(edges, [2]int{i, j})
				}
			}
		}
		var connect = func(i, j int) {
			if w.sub[pair(i, j)] == nil {
				w.connect(i, j, rapid.Bool().Draw(t, "udp"))
			}
		}
		var pubs, subs int
		for k := rapid.IntRange(3, 16).Draw(t, "ops"); k > 0; k-- {
			var e = rapid.SampledFrom(edges).Draw(t, "edge")
			var f = rapid.IntRange(0, fs-1).Draw(t, "feed")
			switch op := rapid.IntRange(0, 15).Draw(t, "op"); {
			case op == 13 && rapid.Bool().Draw(t, "restart"):
				w.note("restart %d", e[0])
				w.agree(fs)
				w.restart(e[0])
				for _, p := range edges {
					connect(p[0], p[1])
				}
			case op == 13 || op == 14:
				w.note("%d drops %d", e[0], e[1])
				w.agree(fs)
				w.drop(e[0], e[1])
				connect(e[0], e[1])
			case op == 15:
				w.note("%d previews %d of %d", e[0], f, e[1])
				w.agree(fs)
				w.preview(e[0], e[1], f)
			case op < 4:
				w.note("%d subscribes to %d of %d", e[0], f, e[1])
				w.subscribe(e[0], e[1], f)
				subs++
			case op < 5:
				w.agree(fs) // otherwise, who is last is unknown
				w.note("%d unsubscribes from %d of %d", e[0], f, e[1])
				w.unsubscribe(e[0], e[1], f)
				w.agree(fs)
			case op < 6:
				w.agree(fs)
				if w.own[f].x.i == e[0] {
					continue
				}
				w.note("%d does not share %d", e[0], f)
				w.dontShare(e[0], f)
				w.agree(fs)
			case op < 7:
				w.note("%d shares %d", e[0], f)
				if err := w.xs[e[0]].n.Share(keys[f].pk); err != nil {
					t.Fatalf("share: %v", err)
				}
				w.share[e[0]][f] = true
			case op < 10:
				if !w.share[w.own[f].x.i][f] {
					continue
				}
				for m := rapid.IntRange(1, 4).Draw(t, "in a row"); m > 0; m-- {
					w.publish(f, uint64(rapid.IntRange(1, 2).Draw(t, "head")))
				}
				pubs++
			default:
				w.note("settle")
				w.settle(fs)
			}
		}
		w.settle(fs)
		time.Sleep(time.Millisecond)
		w.settle(fs)
		for i, x := range w.xs {
			authentic(t, x)
			x.mx.Lock()
			var full = len(x.full) - w.before[i] // by this process
			x.mx.Unlock()
			eventually(t, fmt.Sprintf("node %d has average filling time", i), func() string {
				var avg = x.n.Stat().Fillavg
				if avg < 0 || avg > time.Since(start) || (full > 0 && avg == 0) || (len(w.got[i]) == 0 && avg != 0) {
					return fmt.Sprintf("%d filled, average %v", full, avg)
				}
				return ""
			})
		}
		if pubs > 0 && subs > 0 {
			c.NonTrivial()
		}
	})
}
