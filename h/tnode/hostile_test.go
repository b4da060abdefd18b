package tnode

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/net/factory"
	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// rawMsg is a received message
type rawMsg struct {
	seq, rseq uint32
	m         msg.Msg
}

// rawPeer speaks the protocol by bytes
type rawPeer struct {
	f      *factory.TCPFactory
	c      *factory.Connection
	id     cipher.PubKey
	seq    uint32
	mute   int32 // does not read
	reader int32

	mx     sync.Mutex
	msgs   []rawMsg
	bad    []string
	closed bool
	wake   chan struct{}

	on func(p *rawPeer, in rawMsg) // own answers
}

var rawCount uint32

func newID() cipher.PubKey {
	var pk, _ = cipher.MustGenerateDeterministicKeyPair([]byte(fmt.Sprintf("raw %d", atomic.AddUint32(&rawCount, 1))))
	return pk
}

// dial opens a connection without handshake
func dial(addr string) (p *rawPeer, err error) {
	p = &rawPeer{f: factory.NewTCPFactory(), id: newID(), wake: make(chan struct{}, 1)}
	if p.c, err = p.f.Connect(addr); err != nil {
		return nil, err
	}
	return
}

func frame(seq, rseq uint32, body []byte) (b []byte) {
	b = binary.LittleEndian.AppendUint32(b, seq)
	b = binary.LittleEndian.AppendUint32(b, rseq)
	return append(b, body...)
}

func (p *rawPeer) raw(b []byte) {
	select {
	case p.c.GetChanOut() <- b:
	case <-time.After(100 * time.Millisecond): // the peer does not read
	}
}

func (p *rawPeer) send(rseq uint32, m msg.Msg) (seq uint32) {
	seq = atomic.AddUint32(&p.seq, 1)
	p.raw(frame(seq, rseq, m.Encode()))
	return
}

// read one message, ok is false if the connection is closed or there are
// no messages
func (p *rawPeer) read(d time.Duration) (in rawMsg, ok bool, err error) {
	select {
	case b, open := <-p.c.GetChanIn():
		if !open {
			return in, false, nil
		}
		if len(b) < 9 {
			return in, false, fmt.Errorf("short message %x", b)
		}
		in.seq, in.rseq = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:])
		if in.m, err = msg.Decode(b[8:]); err != nil {
			return in, false, fmt.Errorf("invalid message %x: %v", b, err)
		}
		return in, true, nil
	case <-time.After(d):
		return in, false, fmt.Errorf("no message")
	}
}

// shake hands properly
func (p *rawPeer) shake() (id cipher.PubKey, err error) {
	var seq = p.send(0, &msg.Syn{Protocol: msg.Version, NodeID: p.id})
	var in, ok, e = p.read(patience)
	if e != nil {
		return id, e
	}
	if !ok {
		return id, fmt.Errorf("closed")
	}
	if in.rseq != seq {
		return id, fmt.Errorf("response to %d, want to %d", in.rseq, seq)
	}
	switch x := in.m.(type) {
	case *msg.Ack:
		return x.NodeID, nil
	case *msg.Err:
		return id, fmt.Errorf("refused: %s", x.Err)
	}
	return id, fmt.Errorf("unexpected %T", in.m)
}

// loop reads and answers until the connection is closed
func (p *rawPeer) loop() {
	atomic.StoreInt32(&p.reader, 1)
	go func() {
		for b := range p.c.GetChanIn() {
			for atomic.LoadInt32(&p.mute) == 1 {
				time.Sleep(time.Millisecond)
			}
			var in rawMsg
			var err = fmt.Errorf("short")
			if len(b) >= 9 {
				in.seq, in.rseq = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:])
				in.m, err = msg.Decode(b[8:])
			}
			p.mx.Lock()
			if err != nil {
				p.bad = append(p.bad, fmt.Sprintf("node sends %x: %v", b, err))
			} else {
				p.msgs = append(p.msgs, in)
			}
			p.mx.Unlock()
			if err == nil && p.on != nil {
				p.on(p, in)
			}
		}
		p.mx.Lock()
		p.closed = true
		p.mx.Unlock()
	}()
}

func (p *rawPeer) isClosed() bool {
	p.mx.Lock()
	defer p.mx.Unlock()
	return p.closed
}

func (p *rawPeer) close() {
	atomic.StoreInt32(&p.mute, 0)
	p.c.Close()
	p.f.Close()
}

// find a message
func (p *rawPeer) find(fn func(in rawMsg) bool) (in rawMsg, ok bool) {
	p.mx.Lock()
	defer p.mx.Unlock()
	for _, in = range p.msgs {
		if fn(in) {
			return in, true
		}
	}
	return in, false
}

// answers to a request of an object
const (
	ansRight = iota
	ansWrong
	ansEmpty
	ansLarge
	ansErr
	ansType
	ansTwice
	ansLate
	ansNever
	ansUnrelated
	ansClose
	ansMax
)

var ansNames = [ansMax]string{"right", "wrong", "empty", "large", "err", "type", "twice", "late", "never", "unrelated", "close"}

// hostile is a peer that knows objects and answers as it wants
type hostile struct {
	*rawPeer
	w      *battle
	policy []int
	n      int
	subs   map[cipher.PubKey]bool // could be subscribed
}

func (h *hostile) object(key cipher.SHA256) []byte {
	h.w.mx.Lock()
	defer h.w.mx.Unlock()
	return h.w.objects[key]
}

func (h *hostile) answer(p *rawPeer, in rawMsg) {
	switch x := in.m.(type) {
	case *msg.RqObject:
		var val = h.object(x.Key)
		if len(h.policy) == 0 {
			return
		}
		h.n++
		var wrong = &msg.Object{Value: append([]byte("wrong"), val...)}
		switch a := h.policy[h.n%len(h.policy)]; {
		case a == ansRight && val != nil:
			p.send(in.seq, &msg.Object{Value: val})
		case a == ansWrong:
			p.send(in.seq, wrong)
		case a == ansEmpty:
			p.send(in.seq, &msg.Object{})
		case a == ansLarge:
			p.send(in.seq, &msg.Object{Value: make([]byte, maxObject+1)})
		case a == ansType:
			var ms = []msg.Msg{&msg.Ok{}, &msg.List{}, &msg.Ping{}, &msg.Peers{}, &msg.Root{}, &msg.Ack{}, &msg.Sub{Feed: keys[0].pk}}
			p.send(in.seq, ms[h.n%len(ms)])
		case a == ansTwice && val != nil:
			p.send(in.seq, &msg.Object{Value: val})
			p.send(in.seq, wrong)
			p.send(in.seq, &msg.Err{Err: "no"})
		case a == ansLate && val != nil:
			var d = time.Duration(h.n%40) * time.Millisecond
			go func() {
				time.Sleep(d)
				p.send(in.seq, &msg.Object{Value: val})
			}()
		case a == ansNever:
		case a == ansUnrelated:
			p.send(in.seq+uint32(h.n%3)-1, &msg.Object{Value: val})
		case a == ansClose:
			p.c.Close()
		default:
			p.send(in.seq, &msg.Err{Err: "no such object"})
		}
	case *msg.RqPreview:
		p.send(in.seq, &msg.Err{Err: "no"})
	case *msg.RqPeers:
		p.send(in.seq, &msg.Err{Err: "no"})
	case *msg.Sub:
		if h.n++; h.n%2 == 0 {
			p.send(in.seq, &msg.Ok{})
			p.send(in.seq, &msg.Ok{})
		}
	}
}

const maxObject = 1 << 20

// battle is a node with honest peers and hostile ones
type battle struct {
	t       *rapid.T
	c       *pbt.Case
	p       *pool
	x       *tnode // under test
	h       *tnode // owner of feed 0
	s       *tnode // subscriber of feeds 0 and 1
	o       *owner
	hs      []*hostile
	log     []string
	objects map[cipher.SHA256][]byte
	mx      sync.Mutex
	roots   []*msg.Root // known
	wild    bool        // hostile peers break the protocol openly
}

func (w *battle) note(format string, args ...interface{}) {
	w.c.Note(format, args...)
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *battle) learn() {
	w.mx.Lock()
	defer w.mx.Unlock()
	for k, v := range w.p.vals {
		w.objects[k] = v
	}
	var reg = regs[0].Encode()
	w.objects[hashOf(reg)] = reg
}

// sign makes a root message
func signRoot(r *registry.Root, k int) *msg.Root {
	var val = r.Encode()
	var sig, err = cipher.SignHash(hashOf(val), keys[k].sk)
	if err != nil {
		pbt.Infra(err)
	}
	return &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: val, Sig: sig}
}

// root of feed 1, owned by hostile peers
func (w *battle) root() (m *msg.Root) {
	var t = w.t
	var r = &registry.Root{Pub: keys[1].pk, Nonce: uint64(rapid.IntRange(1, 8).Draw(t, "nonce")), Reg: regs[0].Reference(), Time: int64(len(w.roots)) + 1}
	r.Seq = rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 1 << 62, 1<<64 - 1}).Draw(t, "seq")
	if r.Seq > 0 {
		r.Prev = cipher.SHA256{1}
	}
	r.Refs = drawRefs(t, w.p, 3)
	w.learn()
	switch rapid.IntRange(0, 8).Draw(t, "flaw") {
	case 0: // objects nobody has
		var d = w.p.dynamicOf(w.p.leaf(8))
		d.Hash = cipher.SHA256{byte(len(w.roots)), 7}
		r.Refs = append(r.Refs, d)
	case 1: // not an object of the schema
		var v = []byte{1, 2, 3}
		w.mx.Lock()
		w.objects[hashOf(v)] = v
		w.mx.Unlock()
		var d = r.Refs[0]
		d.Hash = hashOf(v)
		r.Refs = append(r.Refs, d)
	case 2: // unknown schema
		var d = r.Refs[0]
		d.Schema = registry.SchemaRef{5}
		r.Refs = append(r.Refs, d)
	case 3:
		r.Reg = registry.RegistryRef{byte(len(w.roots)), 9}
	case 4:
		r.Reg = registry.RegistryRef{}
	case 5: // object without content
		w.mx.Lock()
		w.objects[hashOf(nil)] = []byte{}
		w.mx.Unlock()
		var d = r.Refs[0]
		d.Hash = hashOf(nil)
		r.Refs = append(r.Refs, d)
		if rapid.Bool().Draw(t, "empty registry") {
			r.Reg = registry.RegistryRef(hashOf(nil))
		}
	}
	m = signRoot(r, 1)
	var defects = 9
	if !w.wild {
		defects = 29
	}
	switch rapid.IntRange(0, defects).Draw(t, "defect") {
	case 0:
		m.Sig[3] ^= 1
	case 1:
		m.Value = append(m.Value, 1)
	case 2:
		m.Value = append(m.Value, 1)
		m.Sig, _ = cipher.SignHash(hashOf(m.Value), keys[1].sk)
	case 3:
		m.Value = m.Value[:rapid.IntRange(0, len(m.Value)-1).Draw(t, "cut")]
		m.Sig, _ = cipher.SignHash(hashOf(m.Value), keys[1].sk)
	case 4:
		m.Feed = keys[0].pk // root of another feed
	case 5:
		m.Nonce, m.Seq = 5, 1<<63 // a lie
	}
	return
}

// act of a hostile peer
func (w *battle) act(h *hostile) {
	var t = w.t
	var feed = func() cipher.PubKey {
		return rapid.SampledFrom([]cipher.PubKey{keys[0].pk, keys[1].pk, keys[1].pk, keys[2].pk, {}, {1}}).Draw(t, "feed")
	}
	var act = rapid.IntRange(0, 17).Draw(t, "act")
	if !w.wild && (act < 2 || act == 12 || act == 13 || act == 17) {
		act = 5
	}
	switch act {
	case 0:
		var b = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		w.note("raw %x", b)
		h.raw(b)
	case 1:
		var b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "body")
		var ty = rapid.IntRange(0, 18).Draw(t, "type")
		w.note("type %d, %x", ty, b)
		h.raw(frame(rapid.Uint32().Draw(t, "seq"), uint32(rapid.IntRange(0, 5).Draw(t, "rseq")), append([]byte{byte(ty)}, b...)))
	case 2, 3:
		var pk = feed()
		w.note("Sub %s", feedName(pk))
		h.subs[pk] = true
		h.send(0, &msg.Sub{Feed: pk})
	case 4:
		var pk = feed()
		w.note("Unsub %s", feedName(pk))
		h.send(0, &msg.Unsub{Feed: pk})
	case 5, 6, 7, 8:
		var m = w.root()
		w.roots = append(w.roots, m)
		w.note("root %d/%d", m.Nonce, m.Seq)
		h.send(0, m)
	case 9:
		if len(w.roots) > 0 {
			var m = *pick(t, "again", w.roots)
			w.note("root %s %d/%d again", feedName(m.Feed), m.Nonce, m.Seq)
			h.send(uint32(rapid.IntRange(0, 20).Draw(t, "rseq")), &m)
		}
	case 10:
		var key cipher.SHA256
		if rapid.Bool().Draw(t, "known") && w.o.last != nil {
			key = w.o.last.Hash
		} else {
			key[0] = rapid.Byte().Draw(t, "key")
		}
		w.note("RqObject %s", short(key))
		h.send(0, &msg.RqObject{Key: key})
	case 11:
		w.note("requests")
		h.send(0, &msg.RqList{})
		h.subs[cipher.PubKey{}] = true // Preview
		h.send(0, &msg.RqPreview{Feed: feed()})
		h.send(0, &msg.RqPeers{Feed: feed()})
	case 12:
		var rseq = uint32(rapid.IntRange(0, 40).Draw(t, "rseq"))
		var ms = []msg.Msg{&msg.Ok{}, &msg.Err{Err: "no"}, &msg.List{Feeds: []cipher.PubKey{{}, keys[0].pk}}, &msg.Object{}, &msg.Object{Value: []byte("unknown")},
			&msg.Peers{Feed: keys[0].pk, List: []msg.PeerInfo{{TCPAddr: "x", UDPAddr: "y"}}}, &msg.Ack{}}
		var i = rapid.IntRange(0, len(ms)-1).Draw(t, "response")
		w.note("unsolicited %T %d", ms[i], rseq)
		h.send(rseq, ms[i])
	case 13:
		var ms = []msg.Msg{&msg.Ping{}, &msg.Pong{}, &msg.Syn{}, &msg.Ack{}}
		var m = pick(t, "other", ms)
		w.note("%T", m)
		h.send(0, m)
	case 14:
		var mute = int32(rapid.IntRange(0, 1).Draw(t, "mute"))
		w.note("mute %d", mute)
		atomic.StoreInt32(&h.mute, mute)
	case 15:
		var k = rapid.IntRange(20, 300).Draw(t, "flood")
		w.note("flood %d", k)
		var key = cipher.SHA256{1}
		if w.o.last != nil {
			key = w.o.last.Hash
		}
		for ; k > 0; k-- {
			h.send(0, &msg.RqObject{Key: key})
		}
	case 16:
		// a true root of the honest owner, that is not published yet
		w.note("save without publishing")
		var r = w.o.save(t, w.p, uint64(rapid.IntRange(1, 2).Draw(t, "head")), drawRefs(t, w.p, 3))
		w.learn()
		var m = &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: r.Encode(), Sig: r.Sig}
		w.roots = append(w.roots, m)
		h.send(0, &msg.Sub{Feed: r.Pub})
		h.subs[r.Pub] = true
		h.send(0, m)
		if rapid.Bool().Draw(t, "publish") {
			var x = *r
			w.h.n.Publish(&x)
		}
	default:
		w.note("close")
		h.close()
	}
}

// connect a hostile peer
func (w *battle) hostile() (h *hostile) {
	var p, err = dial(w.x.addr)
	if err != nil {
		w.t.Fatalf("dial: %v", err)
	}
	h = &hostile{rawPeer: p, w: w, subs: map[cipher.PubKey]bool{}}
	var answers = []int{ansRight, ansRight, ansRight, ansWrong, ansEmpty, ansLarge, ansErr, ansType, ansTwice, ansTwice, ansLate, ansNever, ansUnrelated, ansClose}
	if !w.wild {
		answers = []int{ansRight, ansRight, ansRight, ansRight, ansRight, ansRight, ansRight, ansRight, ansLate, ansErr}
	}
	h.policy = rapid.SliceOfN(rapid.SampledFrom(answers), 1, 6).Draw(w.t, "answers")
	var ss []string
	for _, a := range h.policy {
		ss = append(ss, ansNames[a])
	}
	w.note("hostile: %s", strings.Join(ss, ","))
	if _, err = p.shake(); err != nil {
		w.t.Fatalf("handshake: %v", err)
	}
	p.on = h.answer
	p.loop()
	if rapid.IntRange(0, 3).Draw(w.t, "subscribes") > 0 {
		h.subs[keys[1].pk] = true
		h.send(0, &msg.Sub{Feed: keys[1].pk})
	}
	w.hs = append(w.hs, h)
	return
}

func link(t failer, a, b *tnode) *node.Conn {
	var c, err = a.n.TCP().Connect(b.addr)
	if err != nil {
		t.Fatalf("connect: %v", err)
	}
	return c
}

func subscribed(t failer, c *node.Conn, f int) {
	var err error
	pbt.Within(patience, "Subscribe", func() { err = c.Subscribe(keys[f].pk) })
	if err != nil {
		t.Fatalf("subscribe: %v", err)
	}
}

// reaches publishes until everybody has the root
func (w *battle) reaches(xs ...*tnode) {
	var s string
	for try := 0; try < 12; try++ {
		var r = w.o.save(w.t, w.p, 9, w.p.someRefs())
		w.learn()
		var cp = *r
		w.h.n.Publish(&cp)
		var dl = time.Now().Add(time.Duration(2+try) * time.Second)
		for s = "?"; s != "" && time.Now().Before(dl); time.Sleep(time.Millisecond) {
			s = ""
			for _, x := range xs {
				var last, err = x.n.Container().LastRoot(keys[0].pk, 9)
				if err != nil {
					s = fmt.Sprintf("node %d: %v", x.i, err)
				} else if last.Hash != r.Hash {
					s = fmt.Sprintf("node %d has %d", x.i, last.Seq)
				}
			}
		}
		if s == "" {
			for _, x := range xs {
				complete(w.t, x, r.Refs, w.p.vals)
			}
			return
		}
	}
	w.t.Fatalf("honest peers can't exchange roots: %s", s)
}

func (p *pool) someRefs() []registry.Dynamic {
	return []registry.Dynamic{p.dynamicOf(p.leaf(40)), p.dynamicOf(p.leaf(50))}
}

func TestN04(t *testing.T) {
	pbt.Check(t, "hostile", 200, 2500, func(t *rapid.T, c *pbt.Case) {
		var w = &battle{t: t, c: c, p: newPool(), objects: map[cipher.SHA256][]byte{}}
		factory.SetLimit(rapid.SampledFrom([]int{0, 0, 3}).Draw(t, "buffer"))
		defer factory.SetLimit(0)
		var timeout = rapid.SampledFrom([]time.Duration{100 * time.Millisecond, time.Second}).Draw(t, "timeout")
		w.wild = rapid.Bool().Draw(t, "wild")
		w.x = newNode(t, 0, func(conf *node.Config) {
			conf.TCP.ResponseTimeout = timeout
			conf.MaxHeads = rapid.IntRange(2, 4).Draw(t, "max heads")
			conf.Config.MaxObjectSize = maxObject
			conf.Config.MaxFillingParallel = rapid.IntRange(1, 6).Draw(t, "parallel")
		})
		w.h = newNode(t, 1, nil)
		w.s = newNode(t, 2, func(conf *node.Config) { conf.TCP.ResponseTimeout = timeout })
		defer func() {
			for _, h := range w.hs {
				h.close()
			}
			w.x.stop()
			w.h.stop()
			w.s.stop()
			if t.Failed() {
				t.Logf("history: %s", strings.Join(w.log, "; "))
			}
		}()
		w.o = newOwner(t, w.h, keys[0])
		var xh = link(t, w.x, w.h)
		subscribed(t, xh, 0)
		if err := w.x.n.Share(keys[1].pk); err != nil {
			t.Fatalf("share: %v", err)
		}
		var sx = link(t, w.s, w.x)
		subscribed(t, sx, 0)
		subscribed(t, sx, 1)
		w.hostile()
		for k := rapid.IntRange(2, 25).Draw(t, "acts"); k > 0; k-- {
			switch rapid.IntRange(0, 9).Draw(t, "what") {
			case 0:
				var open int
				for _, h := range w.hs {
					if !h.isClosed() {
						open++
					}
				}
				if open < 4 && len(w.hs) < 12 {
					w.hostile()
				}
			case 1:
				w.note("wait")
				time.Sleep(time.Duration(rapid.IntRange(1, 30).Draw(t, "ms")) * time.Millisecond)
			case 2:
				w.note("publish")
				var r = w.o.save(t, w.p, uint64(rapid.IntRange(1, 2).Draw(t, "head")), drawRefs(t, w.p, 3))
				w.learn()
				var cp = *r
				w.h.n.Publish(&cp)
				w.roots = append(w.roots, &msg.Root{Feed: r.Pub, Nonce: r.Nonce, Seq: r.Seq, Value: r.Encode(), Sig: r.Sig})
			case 3:
				// the node subscribes to a hostile peer, or previews
				var h = pick(t, "of", w.hs)
				for _, c := range w.x.n.Connections() {
					if c.PeerID() == h.id {
						w.note("subscribe to hostile")
						h.subs[keys[1].pk] = true
						pbt.Within(patience, "Subscribe", func() { c.Subscribe(keys[1].pk) })
						pbt.Within(patience, "Preview", func() {
							c.Preview(keys[1].pk, func(registry.Pack, *registry.Root) bool { return false })
						})
					}
				}
			default:
				w.act(pick(t, "hostile", w.hs))
			}
		}
		// honest peers are served
		w.reaches(w.x, w.s)
		var y = newNode(t, 3, nil)
		defer y.stop()
		subscribed(t, link(t, y, w.x), 0)
		w.reaches(w.x, w.s, y)
		var fs, err = sx.RemoteFeeds()
		if err != nil || feedNames(fs) != "0,1" {
			t.Fatalf("feeds: %s %v", feedNames(fs), err)
		}
		for _, x := range []*tnode{w.x, w.s, w.h, y} {
			authentic(t, x)
			x.checkBad(t)
		}
		for _, h := range w.hs {
			h.mx.Lock()
			var bad = append([]string(nil), h.bad...)
			for _, in := range h.msgs {
				switch x := in.m.(type) {
				case *msg.Root:
					if in.rseq == 0 && !h.subs[x.Feed] {
						bad = append(bad, "a root of feed "+feedName(x.Feed)+" is sent to a peer that is not subscribed")
					}
				case *msg.Object:
					if len(x.Value) == 0 {
						bad = append(bad, "empty object is sent")
					}
				}
			}
			h.mx.Unlock()
			if len(bad) > 0 {
				t.Fatalf("%s", strings.Join(bad, "; "))
			}
		}
		// full roots of feed 1 are complete
		for _, x := range []*tnode{w.x, w.s} {
			var hs, _ = x.n.Container().Heads(keys[1].pk)
			for _, nonce := range hs {
				var r, err = x.n.Container().LastRoot(keys[1].pk, nonce)
				if err != nil {
					continue
				}
				var vs = vals{}
				w.mx.Lock()
				for k, v := range w.objects {
					vs[k] = v
				}
				w.mx.Unlock()
				for _, d := range r.Refs {
					if val, _, err := x.n.Container().Get(d.Hash, 0); d.Hash != (cipher.SHA256{}) && (err != nil || !bytes.Equal(val, vs[d.Hash])) {
						t.Fatalf("node %d: object %s of full root: %v", x.i, short(d.Hash), err)
					}
				}
			}
		}
		if len(w.roots) > 0 {
			c.NonTrivial()
		}
	})
}
