package tnode

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// aRoot is a root all objects of which belong to it only
type aRoot struct {
	m      *msg.Root
	nonce  uint64
	seq    uint64
	hash   hash
	reject bool // by callback
	burnt  bool // some requests are out of control
}

func (r *aRoot) String() string {
	if r == nil {
		return "none"
	}
	return fmt.Sprintf("%d/%d", r.nonce, r.seq)
}

// ask is a request of the node that is not answered yet
type ask struct {
	seq  uint32
	key  hash
	root *aRoot
}

// source is a peer played by the harness
type source struct {
	*rawPeer
	name    int
	asks    []ask
	credits map[*aRoot]int  // announced - refused
	left    map[*aRoot]bool // unsubscribed while a request was not answered
	limit   map[*aRoot]int  // requests that can come after that
	subs    bool            // subscribed
	dead    bool
	oks     int
	got     map[hash]int // roots the node sent
}

// mhead is model of a head
type mhead struct {
	f, p  *aRoot // filling, pending
	fs    int    // model of broken + filled before the f
	known map[*source]map[*aRoot]bool
	again map[*source]bool // announced again while answering
}

type fillEvent struct {
	kind string
	seq  uint64
	hash hash
	err  error
}

// fillw is a node that fills roots of a feed from the sources
type fillw struct {
	t     *rapid.T
	c     *pbt.Case
	p     *pool
	x     *tnode
	timed bool // filling is broken by time
	mh    int  // MaxHeads
	mp    int  // MaxFillingParallel
	log   []string
	roots map[[2]uint64]*aRoot
	list  []*aRoot

	mx      sync.Mutex
	of      map[hash]*aRoot // owner of object
	byHash  map[hash]*aRoot
	ss      []*source
	bad     []string
	events  map[uint64][]fillEvent // callbacks of heads
	barrier map[hash]chan struct{}

	// model
	heads map[uint64]*mhead
	order []uint64 // of creation
	last  map[uint64]*aRoot
	want  map[uint64][]fillEvent // expected callbacks
	bars  uint64
	names int
}

func (w *fillw) note(format string, args ...interface{}) {
	w.c.Note(format, args...)
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *fillw) failf(format string, args ...interface{}) {
	w.t.Fatalf("%s\nhistory: %s", fmt.Sprintf(format, args...), strings.Join(w.log, "; "))
}

// unique tree of objects
func (w *fillw) object(depth int) (h hash) {
	var p = w.p
	switch rapid.IntRange(0, 3).Draw(w.t, "kind") {
	case 0:
		if depth > 0 {
			var b = p.id(tPair)
			var x, y = w.object(0), w.object(0)
			b = append(b, x[:]...)
			return p.add(tPair, append(b, y[:]...))
		}
	case 1:
		if depth > 0 {
			var list []hash
			for i := rapid.IntRange(1, 5).Draw(w.t, "elements"); i > 0; i-- {
				list = append(list, p.leaf(i))
			}
			var x = p.treeOf(list, 2)
			return p.add(tList, append(p.id(tList), x[:]...))
		}
	}
	return p.leaf(rapid.IntRange(0, 30).Draw(w.t, "size"))
}

func (w *fillw) root(nonce, seq uint64) (r *aRoot) {
	var k = [2]uint64{nonce, seq}
	if r = w.roots[k]; r != nil {
		return
	}
	var reg = &registry.Root{Pub: keys[1].pk, Nonce: nonce, Seq: seq, Reg: regs[0].Reference(), Time: int64(len(w.roots) + 1)}
	if seq > 0 {
		reg.Prev = hash{1}
	}
	r = &aRoot{nonce: nonce, seq: seq, reject: rapid.IntRange(0, 7).Draw(w.t, "reject") == 0}
	for i := rapid.IntRange(1, 5).Draw(w.t, "branches"); i > 0; i-- {
		var d = w.p.dynamicOf(w.object(1))
		reg.Refs = append(reg.Refs, d)
	}
	r.m = signRoot(reg, 1)
	r.hash = hashOf(r.m.Value)
	w.roots[k] = r
	w.list = append(w.list, r)
	var c = newCounter(getIn(w.p.vals))
	for _, d := range reg.Refs {
		c.object(d.Hash)
	}
	if len(c.miss) > 0 {
		panic("harness: missing")
	}
	w.mx.Lock()
	defer w.mx.Unlock()
	for h, n := range c.count {
		if n != 1 || w.of[h] != nil {
			panic("harness: not unique")
		}
		w.of[h] = r
	}
	w.byHash[r.hash] = r
	return
}

// one is a new connected and subscribed source
func (w *fillw) source() (s *source) {
	var p, err = dial(w.x.addr)
	if err != nil {
		w.failf("dial: %v", err)
	}
	w.names++
	s = &source{rawPeer: p, name: w.names, credits: map[*aRoot]int{}, left: map[*aRoot]bool{}, limit: map[*aRoot]int{}, got: map[hash]int{}}
	if _, err = p.shake(); err != nil {
		w.failf("handshake: %v", err)
	}
	p.on = func(_ *rawPeer, in rawMsg) { w.message(s, in) }
	p.loop()
	w.mx.Lock()
	w.ss = append(w.ss, s)
	w.mx.Unlock()
	w.note("new source %d", s.name)
	w.subscribe(s)
	return
}

func (w *fillw) subscribe(s *source) {
	var seq = s.send(0, &msg.Sub{Feed: keys[1].pk})
	eventually(w.t, "reply to Sub", func() string {
		if in, ok := s.find(func(in rawMsg) bool { return in.rseq == seq }); ok {
			if _, ok = in.m.(*msg.Ok); !ok {
				w.failf("reply to Sub is %T", in.m)
			}
			return ""
		}
		s.mx.Lock()
		defer s.mx.Unlock()
		return fmt.Sprintf("no reply: %v, %v\nhistory: %s", s.msgs, s.closed, strings.Join(w.log, "; "))
	})
	s.subs = true
}

// message of the node
func (w *fillw) message(s *source, in rawMsg) {
	w.mx.Lock()
	defer w.mx.Unlock()
	var bad = func(format string, args ...interface{}) {
		w.bad = append(w.bad, fmt.Sprintf("source %d: ", s.name)+fmt.Sprintf(format, args...))
	}
	switch x := in.m.(type) {
	case *msg.RqObject:
		var r = w.of[x.Key]
		if r == nil {
			bad("requested %s nobody refers to", short(x.Key))
			return
		}
		if s.credits[r] <= 0 {
			bad("requested object of root %s: it has announced it %d times more than refused", r, s.credits[r])
		}
		if n, ok := s.limit[r]; ok && !r.burnt {
			if n == 0 {
				bad("requested object of root %s: it has left the feed", r)
			}
			s.limit[r]--
		}
		var all int
		for _, o := range w.ss {
			for _, a := range o.asks {
				if a.root != r || o.dead {
					continue
				}
				all++
				if o == s && !r.burnt && !s.left[r] && !w.timed {
					bad("second request at once for root %s", r)
				}
			}
		}
		if all > w.mp && !r.burnt && !w.timed {
			bad("%d requests at once for root %s, while MaxFillingParallel is %d", all+1, r, w.mp)
		}
		s.asks = append(s.asks, ask{in.seq, x.Key, r})
	case *msg.Root:
		if x.Feed != keys[1].pk {
			bad("sent root of another feed")
		}
		s.got[hashOf(x.Value)]++
	}
}

func (w *fillw) event(r *registry.Root, kind string, err error) {
	w.mx.Lock()
	defer w.mx.Unlock()
	w.events[r.Nonce] = append(w.events[r.Nonce], fillEvent{kind, r.Seq, r.Hash, err})
}

// count of asks for the root
func (w *fillw) asked(r *aRoot) (n int) {
	w.mx.Lock()
	defer w.mx.Unlock()
	for _, s := range w.ss {
		if !s.dead {
			for _, a := range s.asks {
				if a.root == r {
					n++
				}
			}
		}
	}
	return
}

// answers reports whether the source is asked for an object of the root
func (w *fillw) answers(s *source, r *aRoot) bool {
	w.mx.Lock()
	defer w.mx.Unlock()
	for _, a := range s.asks {
		if a.root == r {
			return true
		}
	}
	return false
}

func (w *fillw) check() {
	w.mx.Lock()
	defer w.mx.Unlock()
	for _, b := range w.bad {
		w.failf("%s", b)
	}
	w.x.checkBad(w.t)
}

func describe(es []fillEvent) string {
	var ss []string
	for _, e := range es {
		ss = append(ss, fmt.Sprintf("%s %d %v", e.kind, e.seq, e.err))
	}
	return strings.Join(ss, ", ")
}

func sameEvents(a, b []fillEvent) bool {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// expects callbacks of the head to be as the model says
func (w *fillw) expects(nonce uint64) {
	eventually(w.t, "callbacks", func() string {
		w.mx.Lock()
		defer w.mx.Unlock()
		if !sameEvents(w.events[nonce], w.want[nonce]) {
			return fmt.Sprintf("head %d: callbacks are: %s\nexpected: %s\nhistory: %s", nonce, describe(w.events[nonce]), describe(w.want[nonce]), strings.Join(w.log, "; "))
		}
		return ""
	})
}

func (w *fillw) wants(r *aRoot, kind string, err error) {
	w.want[r.nonce] = append(w.want[r.nonce], fillEvent{kind, r.seq, r.hash, err})
}

func (h *mhead) knows(r *aRoot) (n int) {
	for _, k := range h.known {
		if k[r] {
			n++
		}
	}
	return
}

// settle waits until every filling waits for an answer, or ends
func (w *fillw) settle() {
	for _, nonce := range w.order {
		var h = w.heads[nonce]
		for h.f != nil {
			var r = h.f
			var state string
			eventually(w.t, "progress of filling", func() string {
				w.mx.Lock()
				var es = w.events[nonce][len(w.want[nonce]):]
				if len(es) > 0 {
					var e = es[0]
					state = e.kind
					if e.hash != r.hash || state != "filled" && state != "broken" || state == "broken" && e.err != node.ErrNoConnectionsToFillFrom {
						w.mx.Unlock()
						w.failf("callback is %s, while %s is filling", describe(es), r)
					}
					w.mx.Unlock()
					return ""
				}
				w.mx.Unlock()
				if w.asked(r) > 0 {
					state = "waits"
					return ""
				}
				return fmt.Sprintf("root %s is neither filled nor broken, and nobody is asked for its objects (%d sources know it)\nhistory: %s", r, h.knows(r), strings.Join(w.log, "; "))
			})
			if state == "waits" {
				break
			}
			h.f = nil
			if state == "filled" {
				w.note("-> %s filled", r)
				w.wants(r, "filled", nil)
				w.last[nonce] = r
				if last, err := w.x.n.Container().LastRoot(keys[1].pk, nonce); err != nil || last.Hash != r.hash {
					w.failf("last root of head %d is not %s: %v", nonce, r, err)
				}
			} else {
				w.note("-> %s broken", r)
				if n := h.knows(r); n > 0 {
					w.failf("filling of %s is broken, while %d sources know it", r, n)
				}
				w.wants(r, "broken", node.ErrNoConnectionsToFillFrom)
			}
			h.f, h.p, h.again = h.p, nil, map[*source]bool{}
		}
	}
	w.check()
}

// announce sends a root
func (w *fillw) announce(s *source, r *aRoot) {
	w.note("%d announces %s", s.name, r)
	w.mx.Lock()
	s.credits[r]++
	for a := range s.limit {
		if a.nonce == r.nonce { // is known to the head again
			delete(s.limit, a)
		}
	}
	w.mx.Unlock()
	s.send(0, r.m)
	if !s.subs {
		w.ping(s)
		return // ignored
	}
	if last := w.last[r.nonce]; last != nil && last.seq >= r.seq {
		w.ping(s)
		return // ignored
	}
	var h = w.heads[r.nonce]
	if h == nil {
		if w.mh > 0 && len(w.order) == w.mh {
			var old = w.order[0]
			var oh = w.heads[old]
			w.order = w.order[1:]
			delete(w.heads, old)
			w.note("-> head %d dismissed", old)
			if oh.f != nil {
				w.mx.Lock()
				oh.f.burnt = true
				w.mx.Unlock()
				w.wants(oh.f, "broken", node.ErrMaxHeadsLimit)
			}
			defer w.expects(old)
		}
		h = &mhead{known: map[*source]map[*aRoot]bool{}, again: map[*source]bool{}}
		w.heads[r.nonce] = h
		w.order = append(w.order, r.nonce)
	}
	if h.f != nil && r.seq < h.f.seq {
		w.flush(s, r.nonce)
		return
	}
	if h.f == r && h.known[s][r] {
		h.again[s] = true
	}
	if h.known[s] == nil {
		h.known[s] = map[*aRoot]bool{}
	}
	h.known[s][r] = true
	switch {
	case h.f == nil:
		w.wants(r, "received", nil)
		if !r.reject {
			h.f = r
		}
		w.expectReceived(r.nonce)
	case r.seq == h.f.seq:
		w.flush(s, r.nonce)
	case h.p == nil || h.p.seq < r.seq:
		w.wants(r, "received", nil)
		if !r.reject {
			h.p = r
		}
		w.expects(r.nonce)
	default:
		w.flush(s, r.nonce)
	}
}

// the filling can end at once
func (w *fillw) expectReceived(nonce uint64) {
	var n = len(w.want[nonce])
	eventually(w.t, "callback", func() string {
		w.mx.Lock()
		defer w.mx.Unlock()
		if es := w.events[nonce]; len(es) < n || !sameEvents(es[:n], w.want[nonce]) {
			return fmt.Sprintf("head %d: callbacks are: %s\nexpected: %s\nhistory: %s", nonce, describe(es), describe(w.want[nonce]), strings.Join(w.log, "; "))
		}
		return ""
	})
}

// ping is a message the connection replies to, after all messages sent before
func (w *fillw) ping(s *source) {
	var seq = s.send(0, &msg.RqList{})
	eventually(w.t, "pong", func() string {
		if _, ok := s.find(func(in rawMsg) bool { return in.rseq == seq }); ok || s.isClosed() {
			return ""
		}
		return "no reply to ping"
	})
}

// flush waits until the head handles everything sent by the source: a newest
// root is received, and rejected by the callback
func (w *fillw) flush(s *source, nonce uint64) {
	w.bars++
	var reg = &registry.Root{Pub: keys[1].pk, Nonce: nonce, Seq: 1<<40 + w.bars, Reg: regs[0].Reference(), Time: 1, Prev: hash{1}}
	var m = signRoot(reg, 1)
	var ch = make(chan struct{})
	w.mx.Lock()
	w.barrier[hashOf(m.Value)] = ch
	w.mx.Unlock()
	s.send(0, m)
	pbt.Within(patience, "receiving of a root", func() { <-ch })
}

// answer one of requests
func (w *fillw) answer(s *source, i int, how string) {
	w.mx.Lock()
	var a = s.asks[i]
	s.asks = append(s.asks[:i:i], s.asks[i+1:]...)
	if how == "err" {
		s.credits[a.root]--
	}
	w.mx.Unlock()
	w.note("%d answers %s to request of %s", s.name, how, a.root)
	var h = w.heads[a.root.nonce]
	if h != nil {
		defer delete(h.again, s)
	}
	switch how {
	case "right":
		s.send(a.seq, &msg.Object{Value: w.p.vals[a.key]})
	case "err":
		if h != nil && h.known[s] != nil {
			// if it was announced again, then it is known still
			if !h.again[s] || h.f != a.root {
				delete(h.known[s], a.root)
			}
		}
		s.send(a.seq, &msg.Err{Err: "no such object"})
	case "wrong", "empty", "type":
		if a.root.burnt == false {
			w.gone(s)
		}
		var m msg.Msg = &msg.Object{Value: []byte("other")}
		if how == "empty" {
			m = &msg.Object{}
		} else if how == "type" {
			m = &msg.Ok{}
		}
		s.send(a.seq, m)
		if a.root.burnt {
			return // the head doesn't care
		}
		eventually(w.t, "closing of the connection after invalid response", func() string {
			if s.isClosed() {
				return ""
			}
			return fmt.Sprintf("connection is not closed\nhistory: %s", strings.Join(w.log, "; "))
		})
	}
}

// gone means that the source is not connected anymore
func (w *fillw) gone(s *source) {
	w.mx.Lock()
	defer w.mx.Unlock()
	s.dead, s.subs = true, false
	for _, h := range w.heads {
		delete(h.known, s)
		delete(h.again, s)
	}
}

func (w *fillw) alive(subs bool) (ss []*source) {
	for _, s := range w.ss {
		if !s.dead && (!subs || s.subs) {
			ss = append(ss, s)
		}
	}
	return
}

func (w *fillw) busy() (ss []*source) {
	w.mx.Lock()
	defer w.mx.Unlock()
	for _, s := range w.ss {
		if !s.dead && len(s.asks) > 0 {
			ss = append(ss, s)
		}
	}
	return
}

var errReject = errors.New("rejected by the test")

func newFillw(t *rapid.T, c *pbt.Case, change func(conf *node.Config)) (w *fillw) {
	w = &fillw{t: t, c: c, p: newPool(), roots: map[[2]uint64]*aRoot{}, of: map[hash]*aRoot{}, byHash: map[hash]*aRoot{}, events: map[uint64][]fillEvent{},
		barrier: map[hash]chan struct{}{}, heads: map[uint64]*mhead{}, last: map[uint64]*aRoot{}, want: map[uint64][]fillEvent{}}
	w.mh = rapid.IntRange(0, 3).Draw(t, "max heads")
	w.mp = rapid.SampledFrom([]int{1, 2, 3, 10}).Draw(t, "parallel")
	w.x = newNode(t, 0, func(conf *node.Config) {
		conf.MaxHeads = w.mh
		conf.Config.MaxFillingParallel = w.mp
		conf.TCP.ResponseTimeout = 0
		conf.MaxFillingTime = 0
		conf.OnRootReceived = func(_ *node.Conn, r *registry.Root) error {
			if r.Pub != keys[1].pk {
				return nil
			}
			w.mx.Lock()
			if ch := w.barrier[r.Hash]; ch != nil {
				close(ch)
				delete(w.barrier, r.Hash)
				w.mx.Unlock()
				return errReject
			}
			var ar = w.byHash[r.Hash]
			w.mx.Unlock()
			w.event(r, "received", nil)
			if ar != nil && ar.reject {
				return errReject
			}
			return nil
		}
		var full, brk = conf.OnRootFilled, conf.OnFillingBreaks
		conf.OnRootFilled = func(n *node.Node, r *registry.Root) {
			if r.Pub == keys[1].pk {
				full(n, r)
				w.event(r, "filled", nil)
			}
		}
		conf.OnFillingBreaks = func(n *node.Node, r *registry.Root, err error) {
			brk(n, r, err)
			w.event(r, "broken", err)
		}
		if change != nil {
			change(conf)
		}
	})
	c.Note("max heads %d, parallel %d", w.mh, w.mp)
	// the registry is known
	newOwner(t, w.x, keys[2]).save(t, w.p, 1, nil)
	if err := w.x.n.Share(keys[1].pk); err != nil {
		t.Fatalf("share: %v", err)
	}
	return
}

func (w *fillw) stop() {
	for _, s := range w.ss {
		s.close()
	}
	w.x.stop()
}

// TestN09 is about filling from many sources
func TestN09(t *testing.T) {
	pbt.Check(t, "filling", 300, 6000, func(t *rapid.T, c *pbt.Case) {
		var w = newFillw(t, c, nil)
		defer w.stop()
		var nonces = rapid.IntRange(1, 4).Draw(t, "heads")
		for i := rapid.IntRange(1, 4).Draw(t, "sources"); i > 0; i-- {
			w.source()
		}
		var broken, replaced bool
		for k := rapid.IntRange(4, 40).Draw(t, "acts"); k > 0; k-- {
			switch a := rapid.IntRange(0, 15).Draw(t, "act"); {
			case a == 0 && len(w.alive(false)) < 6:
				w.source()
			case a == 1 && len(w.alive(false)) > 1:
				var s = pick(t, "source", w.alive(false))
				w.note("%d disconnects", s.name)
				w.gone(s)
				s.close()
			case a == 2:
				var s = pick(t, "source", w.alive(false))
				if s.subs {
					w.note("%d unsubscribes", s.name)
					var n = w.x.count("unsub " + s.id.Hex())
					s.send(0, &msg.Unsub{Feed: keys[1].pk})
					eventually(t, "OnUnsubscribeRemote", func() string {
						if w.x.count("unsub "+s.id.Hex()) == n {
							return "no callback"
						}
						return ""
					})
					s.subs = false
					w.mx.Lock()
					for _, a := range w.list {
						s.left[a] = true
					}
					w.mx.Unlock()
					for _, h := range w.heads {
						delete(h.known, s)
						delete(h.again, s)
					}
					// all heads know it, if there is somebody to ask:
					// at most one request is on the way
					var other *source
					for _, o := range w.alive(true) {
						if len(o.limit) == 0 {
							other = o
						}
					}
					if other != nil {
						for _, nonce := range w.order {
							w.flush(other, nonce)
						}
						w.mx.Lock()
						for _, a := range w.list {
							s.limit[a] = 1
						}
						for _, a := range s.asks {
							s.limit[a.root] = 0
						}
						w.mx.Unlock()
					}
				} else {
					w.note("%d subscribes", s.name)
					w.subscribe(s)
				}
			case a < 8:
				var r = w.root(uint64(rapid.IntRange(1, nonces).Draw(t, "head")), uint64(rapid.IntRange(0, 5).Draw(t, "seq")))
				if r.burnt {
					continue
				}
				var h = w.heads[r.nonce]
				if h != nil && h.p != nil && h.p.seq < r.seq {
					replaced = true
				}
				var ss = []*source{pick(t, "source", w.alive(false))}
				if rapid.IntRange(0, 5).Draw(t, "everybody") == 0 {
					ss = w.alive(false)
				}
				for _, s := range ss {
					if h := w.heads[r.nonce]; h != nil && h.f == r && h.known[s][r] && !w.answers(s, r) {
						continue // a request can be on the way
					}
					w.announce(s, r)
					w.settle()
				}
			default:
				var ss = w.busy()
				if len(ss) == 0 {
					continue
				}
				var s = pick(t, "source", ss)
				w.mx.Lock()
				var n = len(s.asks)
				w.mx.Unlock()
				var how = rapid.SampledFrom([]string{"right", "right", "right", "right", "right", "right", "right", "err", "err", "err", "wrong", "empty", "type"}).Draw(t, "answer")
				if how != "right" {
					broken = true
				}
				if (how == "wrong" || how == "empty" || how == "type") && len(w.alive(false)) < 2 {
					how = "right"
				}
				w.answer(s, rapid.IntRange(0, n-1).Draw(t, "request"), how)
			}
			w.settle()
		}
		// a source that has everything appears
		var s = w.source()
		for i := 1; i <= nonces; i++ {
			var r = w.root(uint64(i), 100)
			r.reject = false
			w.announce(s, r)
			for {
				w.settle()
				if w.last[r.nonce] == r {
					break
				}
				var ss = w.busy()
				if len(ss) == 0 {
					w.failf("root %s is not filled", r)
				}
				w.answer(ss[0], 0, "right")
			}
		}
		for nonce := range w.want {
			w.expects(nonce)
		}
		w.check()
		// everybody subscribed learned of last roots
		for _, o := range w.alive(true) {
			for _, r := range w.last {
				eventually(t, "announcement of filled root", func() string {
					w.mx.Lock()
					defer w.mx.Unlock()
					if o.got[r.hash] == 0 {
						return fmt.Sprintf("source %d has not got root %s", o.name, r)
					}
					return ""
				})
			}
		}
		var total int
		for _, es := range w.want {
			total += len(es)
		}
		if broken {
			c.Class("refused")
		}
		if replaced {
			c.Class("replaced")
		}
		if len(w.names2()) > 2 && total > 6 {
			c.NonTrivial()
		}
		authentic(t, w.x)
	})
}

func (w *fillw) names2() (ns []int) {
	for _, s := range w.ss {
		if len(s.credits) > 0 {
			ns = append(ns, s.name)
		}
	}
	sort.Ints(ns)
	return
}

var _ = cipher.SHA256{}
var _ = time.Now

// TestN09Time is about the limit of time
func TestN09Time(t *testing.T) {
	pbt.Check(t, "filling time", 40, 600, func(t *rapid.T, c *pbt.Case) {
		var limit = time.Duration(rapid.IntRange(60, 250).Draw(t, "limit, ms")) * time.Millisecond
		var w = newFillw(t, c, func(conf *node.Config) { conf.MaxFillingTime = limit })
		w.timed = true
		defer w.stop()
		var n = rapid.IntRange(1, 3).Draw(t, "sources")
		for i := 0; i < n; i++ {
			w.source()
		}
		c.NonTrivial()
		var r, next = w.root(1, 0), w.root(1, uint64(rapid.IntRange(1, 3).Draw(t, "next")))
		r.reject, next.reject = false, false
		var pending = rapid.Bool().Draw(t, "pending")
		var again = rapid.Bool().Draw(t, "announce again")
		var begin = time.Now()
		for _, s := range w.ss {
			w.mx.Lock()
			s.credits[r], s.credits[next] = 100, 100
			w.mx.Unlock()
			s.send(0, r.m)
		}
		eventually(t, "request of an object", func() string {
			if w.asked(r) == 0 {
				return "nothing is requested"
			}
			return ""
		})
		var some = rapid.IntRange(0, 1).Draw(t, "answers")
		for i := 0; i < some; i++ {
			for _, s := range w.busy() {
				w.mx.Lock()
				var a = s.asks[0]
				s.asks = s.asks[1:]
				w.mx.Unlock()
				s.send(a.seq, &msg.Object{Value: w.p.vals[a.key]})
			}
		}
		if pending {
			w.ss[0].send(0, next.m)
		}
		var count = func(kind string, r *aRoot) (n int, last error) {
			w.mx.Lock()
			defer w.mx.Unlock()
			for _, e := range w.events[1] {
				if e.kind == kind && e.hash == r.hash {
					n, last = n+1, e.err
				}
			}
			return
		}
		eventually(t, "end of filling", func() string {
			var b, _ = count("broken", r)
			var f, _ = count("filled", r)
			if b+f == 0 {
				return "neither filled nor broken"
			}
			return ""
		})
		var took = time.Since(begin)
		b, err := count("broken", r)
		if f, _ := count("filled", r); f > 0 {
			if some == 0 {
				w.failf("the root is filled of nothing")
			}
			return // is small
		}
		if took < limit {
			w.failf("filling is broken after %v by %v, while the limit is %v", took, err, limit)
		}
		if b != 1 || err != node.ErrTimeout {
			w.failf("filling is broken %d times by %v", b, err)
		}
		// requests that are not answered don't count anymore: when all
		// sources refuse, then there is nobody to fill from
		if !pending && rapid.Bool().Draw(t, "refuse") {
			again = false // a filling of the next root can be in progress
			var dl = time.Now().Add(patience)
			for try := 0; ; try++ {
				var was, _ = count("broken", next)
				for _, s := range w.ss {
					s.send(0, next.m)
				}
				var now int
				var err error
				eventually(t, "end of next filling", func() string {
					for _, s := range w.busy() {
						w.mx.Lock()
						var as = s.asks
						s.asks = nil
						w.mx.Unlock()
						for _, a := range as {
							if w.of[a.key] == next {
								s.send(a.seq, &msg.Err{Err: "no such object"})
							}
						}
					}
					if now, err = count("broken", next); now == was {
						return "not broken"
					}
					return ""
				})
				if err == node.ErrNoConnectionsToFillFrom {
					c.Class("refused")
					break
				}
				if time.Now().After(dl) {
					w.failf("all sources refuse, and the filling is always broken by %v", err)
				}
			}
		}
		// the head is alive
		var r2 = next
		if again {
			r2 = r
			if pending {
				r2 = next
			}
		}
		for try := 0; ; try++ {
			if try > 0 || !pending {
				for _, s := range w.ss {
					s.send(0, r2.m)
				}
			}
			var f, b, was int
			was, _ = count("broken", r2)
			if pending && try == 0 {
				was = 0
			}
			eventually(t, "end of next filling", func() string {
				for _, s := range w.busy() {
					w.mx.Lock()
					var as = s.asks
					s.asks = nil
					w.mx.Unlock()
					for _, a := range as {
						s.send(a.seq, &msg.Object{Value: w.p.vals[a.key]})
					}
				}
				f, _ = count("filled", r2)
				b, _ = count("broken", r2)
				if f+b-was <= 0 {
					return fmt.Sprintf("neither filled nor broken, pending %v, again %v", pending, again)
				}
				return ""
			})
			if f > 0 {
				break
			}
			if try > 150 {
				w.failf("next root is never filled")
			}
		}
		w.mx.Lock()
		defer w.mx.Unlock()
		w.x.checkBad(t)
	})
}
