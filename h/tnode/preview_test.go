package tnode

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

// content of a database
func content(t failer, d *testDB) string {
	var ss []string
	var err = d.cx.Iterate(func(key cipher.SHA256, rc uint32, val []byte) error {
		ss = append(ss, fmt.Sprintf("%s %d", key.Hex(), len(val)))
		return nil
	})
	if err != nil {
		t.Fatalf("iterate: %v", err)
	}
	err = d.idx.Tx(func(fs data.Feeds) error {
		return fs.Iterate(func(pk cipher.PubKey) error {
			var hs, err = fs.Heads(pk)
			if err != nil {
				return err
			}
			return hs.Iterate(func(nonce uint64) error {
				ss = append(ss, fmt.Sprintf("%s/%d", pk.Hex(), nonce))
				return nil
			})
		})
	})
	if err != nil {
		t.Fatalf("iterate: %v", err)
	}
	sort.Strings(ss)
	return fmt.Sprint(ss)
}

// previewer answers requests of a preview as it wants
type previewer struct {
	mx     sync.Mutex
	vals   map[cipher.SHA256][]byte
	how    map[cipher.SHA256]int // ansRight by default
	root   func(p *rawPeer, seq uint32)
	sub    msg.Msg // response to Sub or nil
	asked  map[cipher.SHA256]int
	subbed []cipher.PubKey
}

func (v *previewer) on(p *rawPeer, in rawMsg) {
	v.mx.Lock()
	defer v.mx.Unlock()
	switch x := in.m.(type) {
	case *msg.RqPreview:
		v.root(p, in.seq)
	case *msg.Sub:
		v.subbed = append(v.subbed, x.Feed)
		if v.sub != nil {
			p.send(in.seq, v.sub)
		}
	case *msg.RqObject:
		v.asked[x.Key]++
		var val, ok = v.vals[x.Key]
		switch how := v.how[x.Key]; {
		case how == ansNever:
		case how == ansWrong:
			p.send(in.seq, &msg.Object{Value: append([]byte("wrong"), val...)})
		case how == ansEmpty:
			p.send(in.seq, &msg.Object{})
		case how == ansUnrelated: // another object
			for k, other := range v.vals {
				if k != x.Key {
					p.send(in.seq, &msg.Object{Value: other})
					return
				}
			}
			p.send(in.seq, &msg.Object{Value: []byte{1}})
		case how == ansType:
			p.send(in.seq, &msg.Ok{})
		case how == ansTwice:
			p.send(in.seq, &msg.Object{Value: val})
			p.send(in.seq, &msg.Object{Value: []byte("twice")})
		case how == ansErr || !ok:
			p.send(in.seq, &msg.Err{Err: "no such object"})
		default:
			p.send(in.seq, &msg.Object{Value: val})
		}
	}
}

// preview of feeds of a peer that lies
func TestN04Preview(t *testing.T) {
	pbt.Check(t, "preview", 250, 4000, func(t *rapid.T, c *pbt.Case) {
		var x = newNode(t, 0, func(conf *node.Config) { conf.TCP.ResponseTimeout = 120 * time.Millisecond })
		defer x.stop()
		var p = newPool()
		var r = &registry.Root{Pub: keys[1].pk, Nonce: rapid.Uint64Range(1, 9).Draw(t, "nonce"), Seq: rapid.Uint64Range(0, 3).Draw(t, "seq"), Reg: regs[0].Reference(), Time: 1, Refs: drawRefs(t, p, 3)}
		if r.Seq > 0 {
			r.Prev = cipher.SHA256{1}
		}
		var v = &previewer{vals: map[cipher.SHA256][]byte{}, how: map[cipher.SHA256]int{}, asked: map[cipher.SHA256]int{}}
		for k, val := range p.vals {
			v.vals[k] = val
		}
		var reg = regs[0].Encode()
		v.vals[hashOf(reg)] = reg
		// objects the node has
		var own = map[cipher.SHA256]bool{}
		for k, n := 0, rapid.IntRange(0, 2).Draw(t, "own objects"); k < n && len(p.vals) > 0; k++ {
			var hs []cipher.SHA256
			for h := range p.vals {
				hs = append(hs, h)
			}
			sort.Slice(hs, func(i, j int) bool { return bytes.Compare(hs[i][:], hs[j][:]) < 0 })
			var h = rapid.SampledFrom(hs).Draw(t, "own")
			if _, err := x.n.Container().Set(h, p.vals[h], 1); err != nil {
				t.Fatalf("set: %v", err)
			}
			own[h] = true
		}
		// share something
		var share = rapid.Bool().Draw(t, "share")
		if share {
			x.n.Share(keys[1].pk)
		}
		var peer, err = dial(x.addr)
		if err != nil {
			t.Fatalf("dial: %v", err)
		}
		defer peer.close()
		if _, err = peer.shake(); err != nil {
			t.Fatalf("handshake: %v", err)
		}
		// response to the request
		var m = signRoot(r, 1)
		var valid bool
		var what = rapid.SampledFrom([]string{"right", "right", "right", "right", "right twice", "other feed", "other owner", "root of other feed", "signature", "garbage", "cut", "rest", "err", "type", "never"}).Draw(t, "response")
		switch what {
		case "right", "right twice":
			valid = true
		case "other feed": // valid root, but not of the feed
			var cp = *r
			cp.Pub = keys[0].pk
			m = signRoot(&cp, 0)
		case "other owner":
			m = signRoot(r, 0)
		case "root of other feed": // by owner of the feed
			var cp = *r
			cp.Pub = keys[0].pk
			m = signRoot(&cp, 1)
			m.Feed = keys[1].pk
		case "signature":
			m.Sig[rapid.IntRange(0, 63).Draw(t, "at")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case "garbage":
			m.Value = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "value")
			m.Sig, _ = cipher.SignHash(hashOf(m.Value), keys[1].sk)
		case "cut":
			m.Value = m.Value[:rapid.IntRange(0, len(m.Value)-1).Draw(t, "cut at")]
			m.Sig, _ = cipher.SignHash(hashOf(m.Value), keys[1].sk)
		case "rest":
			m.Value = append(m.Value, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "more")...)
			m.Sig, _ = cipher.SignHash(hashOf(m.Value), keys[1].sk)
		}
		v.root = func(p *rawPeer, seq uint32) {
			switch what {
			case "err":
				p.send(seq, &msg.Err{Err: "no"})
			case "type":
				p.send(seq, &msg.List{Feeds: []cipher.PubKey{keys[1].pk}})
			case "never":
			case "right twice":
				p.send(seq, m)
				p.send(seq, m)
			default:
				p.send(seq, m)
			}
		}
		var hows = []int{ansRight, ansRight, ansRight, ansWrong, ansEmpty, ansUnrelated, ansErr, ansType, ansTwice, ansNever}
		var draw = func(h cipher.SHA256) {
			var how = rapid.SampledFrom(hows).Draw(t, "answer")
			v.mx.Lock()
			v.how[h] = how
			v.mx.Unlock()
		}
		var subscribe = rapid.Bool().Draw(t, "subscribe")
		var subErr = errors.New("no response")
		switch rapid.IntRange(0, 3).Draw(t, "response to Sub") {
		case 0:
			v.sub, subErr = &msg.Err{Err: "no"}, errors.New("no")
		case 1:
		default:
			v.sub, subErr = &msg.Ok{}, nil
		}
		var regOk = true
		if rapid.IntRange(0, 3).Draw(t, "registry is bad") == 0 {
			draw(hashOf(reg))
			regOk = v.how[hashOf(reg)] == ansRight || v.how[hashOf(reg)] == ansTwice
		}
		peer.on = v.on
		peer.loop()
		eventually(t, "connected", func() string {
			if len(x.n.Connections()) != 1 {
				return "no connection"
			}
			return ""
		})
		var conn = x.n.Connections()[0]
		var before = content(t, x.db)
		var hs []cipher.SHA256
		for _, d := range r.Refs {
			if d.Hash != (cipher.SHA256{}) {
				hs = append(hs, p.closure(d.Hash)...)
			}
		}
		hs = append(hs, cipher.SHA256{3}, hashOf(nil))
		c.Note("%s, registry %v, %d objects, subscribe %v (%v)", what, regOk, len(hs), subscribe, subErr)
		var calls, gets, right int
		var preview = func() {
			err = conn.Preview(keys[1].pk, func(pack registry.Pack, got *registry.Root) bool {
				calls++
				if got.Pub != r.Pub || got.Nonce != r.Nonce || got.Seq != r.Seq || got.Hash != hashOf(m.Value) || !bytes.Equal(got.Encode(), r.Encode()) {
					t.Fatalf("preview of another root %d/%d of %s", got.Nonce, got.Seq, feedName(got.Pub))
				}
				if pack.Registry() == nil || pack.Registry().Reference() != r.Reg {
					t.Fatalf("preview with another registry")
				}
				var have = map[cipher.SHA256]bool{}
				for k := rapid.IntRange(0, 12).Draw(t, "gets"); k > 0; k-- {
					var h = rapid.SampledFrom(hs).Draw(t, "get")
					draw(h)
					var how = v.how[h]
					var want, known = v.vals[h]
					var answers = known && (how == ansRight || how == ansTwice)
					var val, err = pack.Get(h)
					for try := 0; try < 20 && answers && err == node.ErrTimeout; try++ {
						val, err = pack.Get(h) // the machine is slow
					}
					gets++
					c.Note("get %s (%s)", short(h), ansNames[how])
					switch {
					case err == nil && hashOf(val) != h:
						t.Fatalf("get of %s returns %q: another object", short(h), val)
					case err == nil && known && !bytes.Equal(val, want):
						t.Fatalf("get of %s returns %q", short(h), val)
					case err == nil:
						have[h] = true
						right++
					case own[h] || have[h] || answers:
						t.Fatalf("get of %s (%s, own %v, got before %v): %v", short(h), ansNames[how], own[h], have[h], err)
					}
					if own[h] && v.askedFor(h) > 0 {
						t.Fatalf("the peer is asked for an object the node has")
					}
				}
				return subscribe
			})
		}
		pbt.Within(patience, "Preview", func() {
			preview()
			for try := 0; try < 20 && calls == 0 && valid && regOk && err == node.ErrTimeout; try++ {
				preview() // the machine is slow
			}
			for try := 0; try < 20 && calls == 1 && subscribe && subErr == nil && err == node.ErrTimeout; try++ {
				err = conn.Subscribe(keys[1].pk)
			}
		})
		x.checkBad(t)
		switch {
		case calls == 0 && err == nil:
			t.Fatalf("no preview, no error")
		case valid && regOk && calls != 1:
			t.Fatalf("no preview: %v", err)
		case !valid && calls > 0:
			t.Fatalf("preview of invalid root (%s)", what)
		}
		var subs string
		if calls == 1 && subscribe {
			if (err == nil) != (subErr == nil) {
				t.Fatalf("subscribe after preview: %v, the peer says %v", err, subErr)
			}
			if subErr == nil {
				subs = "1"
			}
			share = true // to subscribe is to share
		} else if calls == 1 && err != nil {
			t.Fatalf("preview: %v", err)
		}
		eventually(t, "subscribed", func() string {
			if s := feedNames(conn.Feeds()); s != subs {
				return fmt.Sprintf("subscribed to %s, want %s", s, subs)
			}
			return ""
		})
		if x.n.IsSharing(keys[1].pk) != share {
			t.Fatalf("shares %v, want %v", !share, share)
		}
		v.mx.Lock()
		defer v.mx.Unlock()
		if len(v.subbed) > 0 && (calls != 1 || !subscribe) {
			t.Fatalf("subscribes to %s", feedNames(v.subbed))
		}
		if s := content(t, x.db); s != before {
			t.Fatalf("preview stores: %s, was %s", s, before)
		}
		// the connection is alive, unless the peer has sent what it must not
		if peer.isClosed() && what != "right twice" {
			var clean = true
			for _, how := range v.how {
				clean = clean && how != ansTwice
			}
			if clean {
				t.Fatalf("the connection is closed")
			}
		}
		authentic(t, x)
		if calls > 0 && gets > 0 || !valid {
			c.NonTrivial()
		}
	})
}

func (v *previewer) askedFor(h cipher.SHA256) int {
	v.mx.Lock()
	defer v.mx.Unlock()
	return v.asked[h]
}
