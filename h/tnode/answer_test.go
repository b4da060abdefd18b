package tnode

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// asked is a request of a raw peer
type asked struct {
	seq   uint32
	what  string
	check func(m msg.Msg) string // "" if it is the right answer
	key   cipher.SHA256          // of the object the node doesn't have
	at    time.Time
}

// asker is a raw peer that sends many requests at once
type asker struct {
	*rawPeer
	sent map[uint32]*asked
	amx  sync.Mutex
	got  map[uint32][]msg.Msg // answers
	when map[uint32]time.Time
	push []msg.Msg
	subs map[cipher.PubKey]bool // of the node
	off  int                    // subscriptions the node ends
}

// answering is a node and peers that ask it
type answering struct {
	t  *rapid.T
	c  *pbt.Case
	x  *tnode
	p  *pool
	o  *owner
	rt time.Duration

	public  bool
	share   map[cipher.PubKey]bool
	last    map[cipher.PubKey]*registry.Root
	have    map[cipher.SHA256]bool
	as      []*asker
	seqs    uint32
	answers int
	events  map[string]int // callbacks that have to be called
}

// callbacks calls since the begin
func (w *answering) callbacks() string {
	var got = map[string]int{}
	w.x.mx.Lock()
	for _, e := range w.x.events {
		got[e]++
	}
	w.x.mx.Unlock()
	for e, n := range w.events {
		if got[e] != n {
			return fmt.Sprintf("callback %q is called %d times, want %d", e, got[e], n)
		}
	}
	for e, n := range got {
		if w.events[e] != n {
			return fmt.Sprintf("callback %q is called %d times, want %d", e, n, w.events[e])
		}
	}
	return ""
}

func (w *answering) asker() (a *asker) {
	var p *rawPeer
	for try := 0; p == nil; try++ {
		var err error
		if p, err = dial(w.x.addr); err != nil {
			w.t.Fatalf("dial: %v", err)
		}
		if _, err = p.shake(); err != nil {
			p.close()
			if p = nil; try > 10 || w.rt == 0 || w.rt > time.Second { // otherwise it can take too long
				w.t.Fatalf("handshake: %v", err)
			}
		}
	}
	a = &asker{rawPeer: p, sent: map[uint32]*asked{}, got: map[uint32][]msg.Msg{}, when: map[uint32]time.Time{}, subs: map[cipher.PubKey]bool{}}
	p.on = func(_ *rawPeer, in rawMsg) {
		a.amx.Lock()
		defer a.amx.Unlock()
		if in.rseq == 0 {
			a.push = append(a.push, in.m)
			return
		}
		a.got[in.rseq] = append(a.got[in.rseq], in.m)
		a.when[in.rseq] = time.Now()
	}
	p.loop()
	w.as = append(w.as, a)
	return
}

// ask something; the answer will be checked later
func (w *answering) ask(a *asker, what string, m msg.Msg, check func(m msg.Msg) string) (q *asked) {
	// numbers of requests are up to the peer
	w.seqs += uint32(rapid.SampledFrom([]int{1, 1, 7, 1 << 30}).Draw(w.t, "step"))
	for w.seqs == 0 || a.sent[w.seqs] != nil {
		w.seqs++
	}
	q = &asked{seq: w.seqs, what: what, check: check, at: time.Now()}
	a.sent[q.seq] = q
	w.c.Note("%s", what)
	a.raw(frame(q.seq, 0, m.Encode()))
	return
}

func isErr(m msg.Msg) string {
	if _, ok := m.(*msg.Err); !ok {
		return "want an error"
	}
	return ""
}

// settle waits for all answers that have to be
func (w *answering) settle() {
	var short = w.rt > 0 && w.rt < time.Second
	for i, a := range w.as {
		for _, q := range a.sent {
			var q = q
			if q.key != (cipher.SHA256{}) && !w.have[q.key] && !short {
				continue // has to wait
			}
			eventually(w.t, fmt.Sprintf("peer %d gets answer to %s", i, q.what), func() string {
				a.amx.Lock()
				defer a.amx.Unlock()
				if len(a.got[q.seq]) == 0 {
					return "no answer"
				}
				return ""
			})
		}
		w.sane(i, a)
	}
}

// sane checks answers that are already got
func (w *answering) sane(i int, a *asker) {
	var short = w.rt > 0 && w.rt < time.Second
	a.amx.Lock()
	defer a.amx.Unlock()
	for rseq, ms := range a.got {
		var q = a.sent[rseq]
		if q == nil {
			w.t.Fatalf("peer %d gets answer to %d, it is not a request of it: %T", i, rseq, ms[0])
		}
		if len(ms) != 1 {
			w.t.Fatalf("peer %d gets %d answers to %s", i, len(ms), q.what)
		}
		w.answers++
		if q.key != (cipher.SHA256{}) {
			if _, ok := ms[0].(*msg.Err); ok && short {
				if d := a.when[rseq].Sub(q.at); d < w.rt*9/10 {
					w.t.Fatalf("peer %d: %s is refused after %v", i, q.what, d)
				}
				continue // nobody provided it in time
			}
			if !w.have[q.key] {
				w.t.Fatalf("peer %d: %s is answered by %T %+v", i, q.what, ms[0], ms[0])
			}
		}
		if s := q.check(ms[0]); s != "" {
			w.t.Fatalf("peer %d: %s is answered by %T %+v, %s", i, q.what, ms[0], ms[0], s)
		}
	}
	var off int
	for _, m := range a.push {
		switch m.(type) {
		case *msg.Root:
		case *msg.Unsub: // the feed is not shared anymore
			if off++; off > a.off {
				w.t.Fatalf("peer %d gets %+v, but the node is not asked to unsubscribe", i, m)
			}
		default:
			w.t.Fatalf("peer %d gets %T, it is not asked for", i, m)
		}
	}
	a.mx.Lock()
	var bad = a.bad
	a.mx.Unlock()
	if len(bad) > 0 {
		w.t.Fatalf("peer %d: %v", i, bad)
	}
	if a.isClosed() {
		w.t.Fatalf("peer %d is disconnected", i)
	}
}

// object asks for an object
func (w *answering) object(a *asker, h hash) {
	var val = w.p.vals[h]
	var q = w.ask(a, fmt.Sprintf("RqObject %x", h[:3]), &msg.RqObject{Key: h}, func(m msg.Msg) string {
		if o, ok := m.(*msg.Object); !ok || !bytes.Equal(o.Value, val) {
			return fmt.Sprintf("want object %x", val)
		}
		return ""
	})
	if !w.have[h] {
		q.key = h
	}
}

// provide saves a root of the objects
func (w *answering) provide(hs ...hash) {
	var refs []registry.Dynamic
	for _, h := range hs {
		refs = append(refs, w.p.dynamicOf(h))
	}
	var r = w.o.save(w.t, w.p, uint64(rapid.IntRange(1, 2).Draw(w.t, "head")), refs)
	w.last[keys[0].pk] = r
	for _, h := range hs {
		for _, k := range w.p.closure(h) {
			w.have[k] = true
		}
	}
}

func TestN11(t *testing.T) {
	pbt.Check(t, "answers", 400, 6000, func(t *rapid.T, c *pbt.Case) {
		var w = &answering{t: t, c: c, p: newPool(), share: map[cipher.PubKey]bool{}, last: map[cipher.PubKey]*registry.Root{}, have: map[cipher.SHA256]bool{}, events: map[string]int{}}
		w.rt = rapid.SampledFrom([]time.Duration{0, time.Hour, time.Hour, 30 * time.Millisecond}).Draw(t, "response timeout")
		w.public = rapid.Bool().Draw(t, "public")
		w.seqs = uint32(rapid.SampledFrom([]int{0, 1, 1 << 31, 1<<32 - 3}).Draw(t, "numbers"))
		w.x = newNode(t, 0, func(conf *node.Config) {
			conf.TCP.ResponseTimeout = w.rt
			conf.Public = w.public
		})
		defer w.x.stop()
		defer func() {
			for _, a := range w.as {
				a.close()
			}
		}()
		w.x.rejectSub = func(_ *node.Conn, pk cipher.PubKey) error {
			if pk == keys[2].pk {
				return fmt.Errorf("rejected")
			}
			return nil
		}
		w.o = newOwner(t, w.x, keys[0])
		w.share[keys[0].pk] = true
		for n := rapid.IntRange(1, 3).Draw(t, "peers"); n > 0; n-- {
			w.asker()
		}
		var feed = func() cipher.PubKey { return keys[rapid.IntRange(0, 3).Draw(t, "feed")].pk }
		var missing []hash // the node has not got
		var waited, given bool
		for k := rapid.IntRange(3, 25).Draw(t, "ops"); k > 0; k-- {
			var i = rapid.IntRange(0, len(w.as)-1).Draw(t, "peer")
			var a = w.as[i]
			switch rapid.IntRange(0, 12).Draw(t, "op") {
			case 0:
				var want = map[cipher.PubKey]bool{}
				for pk, ok := range w.share {
					if ok {
						want[pk] = true
					}
				}
				w.ask(a, "RqList", &msg.RqList{}, func(m msg.Msg) string {
					if !w.public {
						return isErr(m)
					}
					var l, ok = m.(*msg.List)
					if !ok || len(l.Feeds) != len(want) {
						return fmt.Sprintf("want list of %d feeds", len(want))
					}
					for _, pk := range l.Feeds {
						if !want[pk] {
							return fmt.Sprintf("want feeds %v", want)
						}
					}
					return ""
				})
			case 1:
				var pk = feed()
				var ok = w.share[pk] && pk != keys[2].pk
				if !a.subs[pk] {
					w.events[fmt.Sprintf("sub %s %s", a.id.Hex(), pk.Hex())]++
					a.subs[pk] = ok
				}
				w.ask(a, "Sub "+feedName(pk), &msg.Sub{Feed: pk}, func(m msg.Msg) string {
					if !ok {
						return isErr(m)
					}
					if _, ok := m.(*msg.Ok); !ok {
						return "want Ok"
					}
					return ""
				})
			case 2:
				w.settle() // otherwise it can outrun something
				c.Note("Unsub")
				var pk = feed()
				if a.subs[pk] {
					w.events[fmt.Sprintf("unsub %s %s", a.id.Hex(), pk.Hex())]++
					a.subs[pk] = false
				}
				a.raw(frame(w.seqs, 0, (&msg.Unsub{Feed: pk}).Encode()))
				if rapid.Bool().Draw(t, "again") {
					a.raw(frame(w.seqs, 0, (&msg.Unsub{Feed: pk}).Encode()))
				}
				w.ask(a, "RqPeers", &msg.RqPeers{Feed: pk}, isErr)
				w.settle() // the node has handled it
			case 3, 4:
				var pk = feed()
				var r = w.last[pk]
				if !w.share[pk] {
					r = nil
				}
				w.ask(a, "RqPreview "+feedName(pk), &msg.RqPreview{Feed: pk}, func(m msg.Msg) string {
					if r == nil {
						return isErr(m)
					}
					var x, ok = m.(*msg.Root)
					if !ok || x.Feed != pk || x.Nonce != r.Nonce || x.Seq != r.Seq || x.Sig != r.Sig || cipher.SumSHA256(x.Value) != r.Hash {
						return fmt.Sprintf("want root %d/%d", r.Nonce, r.Seq)
					}
					return ""
				})
			case 5:
				w.ask(a, "RqPeers", &msg.RqPeers{Feed: feed()}, isErr)
			case 6:
				// an object the node has
				var l []hash
				for _, h := range w.p.all {
					if w.have[h] {
						l = append(l, h)
					}
				}
				if len(l) > 0 {
					w.object(a, l[rapid.IntRange(0, len(l)-1).Draw(t, "object")])
				}
			case 7, 8:
				// an object the node will have, perhaps
				if len(missing) == 0 || rapid.Bool().Draw(t, "another") {
					missing = append(missing, w.p.leaf(10+len(missing)))
				}
				w.object(a, missing[rapid.IntRange(0, len(missing)-1).Draw(t, "object")])
				waited = true
			case 9:
				if !w.share[keys[0].pk] {
					continue
				}
				if len(missing) == 0 {
					missing = append(missing, w.p.leaf(10))
				}
				w.settle()
				var n = rapid.IntRange(1, len(missing)).Draw(t, "provided")
				c.Note("provide %d", n)
				w.provide(missing[:n]...)
				missing = missing[n:]
				given = given || waited
				if rapid.Bool().Draw(t, "settle") {
					w.settle()
				}
			case 10:
				w.settle()
				var pk = keys[rapid.IntRange(0, 2).Draw(t, "feed")].pk
				c.Note("share %s: %v", feedName(pk), !w.share[pk])
				var err error
				if w.share[pk] = !w.share[pk]; w.share[pk] {
					err = w.x.n.Share(pk)
				} else {
					err = w.x.n.DontShare(pk)
					for _, a := range w.as {
						if a.subs[pk] {
							a.subs[pk] = false
							a.off++
						}
					}
				}
				if err != nil {
					t.Fatalf("share: %v", err)
				}
			case 12:
				// such request is a fault of a peer
				var b = w.asker()
				w.as = w.as[:len(w.as)-1]
				var m msg.Msg = &msg.Unsub{}
				if rapid.Bool().Draw(t, "sub") {
					m = &msg.Sub{}
				}
				c.Note("%T of blank feed", m)
				b.raw(frame(77, 0, m.Encode()))
				eventually(t, "a peer that asks for blank feed is closed", func() string {
					if !b.isClosed() {
						return "it is not"
					}
					return ""
				})
				b.amx.Lock()
				for _, ms := range b.got {
					if _, ok := ms[0].(*msg.Ok); ok {
						t.Fatalf("a peer is subscribed to blank feed")
					}
				}
				b.amx.Unlock()
				b.close()
			case 11:
				if rapid.IntRange(0, 3).Draw(t, "leave") > 0 || len(w.as) == 1 {
					c.Note("settle")
					w.settle()
					continue
				}
				c.Note("peer %d leaves", i)
				w.sane(i, a)
				a.close()
				w.as = append(w.as[:i], w.as[i+1:]...)
			}
		}
		w.settle()
		time.Sleep(200 * time.Microsecond)
		for i, a := range w.as {
			w.sane(i, a)
		}
		if s := w.callbacks(); s != "" {
			t.Fatalf("%s", s)
		}
		w.x.checkBad(t)
		if given || w.answers > 5 {
			c.NonTrivial()
		}
		if given {
			c.Class("waited object is provided")
		}
	})
}
