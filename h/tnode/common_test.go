package tnode

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	stdlog "log"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

func TestMain(m *testing.M) {
	stdlog.SetOutput(io.Discard) // net/rpc
	pbt.Main(m)
}

// patience is time for things that take milliseconds
const patience = 40 * time.Second

func hashOf(b []byte) cipher.SHA256 { return cipher.SHA256(sha256.Sum256(b)) }

func short(h cipher.SHA256) string { return h.Hex()[:6] }

// keepCXDS ignores Close, then the content can be inspected
type keepCXDS struct {
	data.CXDS
	closed *int32
	disk   bool
}

func (k keepCXDS) Close() error {
	atomic.AddInt32(k.closed, 1)
	if k.disk {
		return k.CXDS.Close()
	}
	return nil
}

type keepIdxDB struct {
	data.IdxDB
	closed *int32
	disk   bool
}

func (k keepIdxDB) Close() error {
	atomic.AddInt32(k.closed, 1)
	if k.disk {
		return k.IdxDB.Close()
	}
	return nil
}

// testDB is a database that survives closing by a node
type testDB struct {
	cx       data.CXDS
	idx      data.IdxDB
	cxc, idc int32 // times closed
	disk     bool  // is really closed
}

func memDB() *testDB { return &testDB{cx: cxds.NewMemoryCXDS(), idx: idxdb.NewMemeoryDB()} }

func (d *testDB) db() *data.DB {
	return data.NewDB(keepCXDS{d.cx, &d.cxc, d.disk}, keepIdxDB{d.idx, &d.idc, d.disk})
}

func (d *testDB) close() {
	d.cx.Close()
	d.idx.Close()
}

// logWatch notices that the node is going to exit
type logWatch struct{}

func (logWatch) Write(p []byte) (int, error) {
	if bytes.Contains(p, []byte("DB failure")) {
		pbt.Hang("the node exits: "+string(p)+": it", 0)
	}
	return len(p), nil
}

var addrCount uint32

func newAddr() string {
	var n = atomic.AddUint32(&addrCount, 1)
	return fmt.Sprintf("10.%d.%d.%d:7000", n>>16&0xff, n>>8&0xff, n&0xff)
}

type filled struct {
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	hash  cipher.SHA256
}

// tnode is a node under test
type tnode struct {
	i    int
	n    *node.Node
	db   *testDB
	addr string
	udp  string

	mx     sync.Mutex
	events []string           // callbacks
	full   []filled           // OnRootFilled
	breaks []error            // OnFillingBreaks
	rcvd   []filled           // OnRootReceived
	open   map[*node.Conn]int // OnConnect - OnDisconnect
	conns  int                // OnConnect calls
	disc   int                // OnDisconnect calls
	why    []error            // reasons of OnDisconnect
	bad    []string

	rejectSub  func(c *node.Conn, pk cipher.PubKey) error
	rejectConn func(c *node.Conn) error
	rejectRoot func(c *node.Conn, r *registry.Root) error
}

func (x *tnode) event(format string, args ...interface{}) {
	x.mx.Lock()
	defer x.mx.Unlock()
	x.events = append(x.events, fmt.Sprintf(format, args...))
}

func (x *tnode) fail(format string, args ...interface{}) {
	x.mx.Lock()
	defer x.mx.Unlock()
	x.bad = append(x.bad, fmt.Sprintf(format, args...))
}

// take events
func (x *tnode) take() (es []string) {
	x.mx.Lock()
	defer x.mx.Unlock()
	es, x.events = x.events, nil
	return
}

func (x *tnode) count(prefix string) (n int) {
	x.mx.Lock()
	defer x.mx.Unlock()
	for _, e := range x.events {
		if strings.HasPrefix(e, prefix) {
			n++
		}
	}
	return
}

func (x *tnode) is(c *node.Conn) bool { return c.PeerID() == x.n.ID() }

type failer interface {
	Fatalf(format string, args ...interface{})
}

// newNode creates and starts a node
func newNode(t failer, i int, change func(conf *node.Config)) (x *tnode) {
	x = &tnode{i: i, db: memDB(), addr: newAddr(), udp: newAddr(), open: map[*node.Conn]int{}}
	var err error
	if x.n, err = x.start(change); err != nil {
		t.Fatalf("new node: %v", err)
	}
	return
}

func (x *tnode) config() (conf *node.Config) {
	conf = node.NewConfig()
	conf.Config = skyobject.NewConfig()
	conf.Config.DB = x.db.db()
	conf.Config.DataDir = ""
	conf.TCP.Listen = x.addr
	conf.UDP.Listen = x.udp
	conf.RPC = ""
	conf.Public = true
	conf.TCP.ResponseTimeout = 5 * time.Second
	conf.UDP.ResponseTimeout = 5 * time.Second
	conf.Logger.Output = logWatch{}
	conf.OnConnect = func(c *node.Conn) (err error) {
		x.mx.Lock()
		x.conns++
		if x.open[c]++; x.open[c] != 1 {
			x.bad = append(x.bad, "OnConnect is called twice")
		}
		var f = x.rejectConn
		x.mx.Unlock()
		if f != nil {
			err = f(c)
		}
		return
	}
	conf.OnDisconnect = func(c *node.Conn, reason error) {
		x.mx.Lock()
		defer x.mx.Unlock()
		x.disc++
		x.why = append(x.why, reason)
		if x.open[c]--; x.open[c] != 0 {
			x.bad = append(x.bad, fmt.Sprintf("OnDisconnect: %d", x.open[c]))
		}
	}
	conf.OnSubscribeRemote = func(c *node.Conn, pk cipher.PubKey) (err error) {
		x.event("sub %s %s", c.PeerID().Hex(), pk.Hex())
		x.mx.Lock()
		var f = x.rejectSub
		x.mx.Unlock()
		if f != nil {
			err = f(c, pk)
		}
		return
	}
	conf.OnUnsubscribeRemote = func(c *node.Conn, pk cipher.PubKey) {
		x.event("unsub %s %s", c.PeerID().Hex(), pk.Hex())
	}
	conf.OnRootReceived = func(c *node.Conn, r *registry.Root) (err error) {
		x.mx.Lock()
		x.rcvd = append(x.rcvd, filled{r.Pub, r.Nonce, r.Seq, r.Hash})
		var f = x.rejectRoot
		x.mx.Unlock()
		if f != nil {
			err = f(c, r)
		}
		return
	}
	conf.OnRootFilled = func(_ *node.Node, r *registry.Root) {
		x.mx.Lock()
		defer x.mx.Unlock()
		for _, f := range x.full {
			if f.pk == r.Pub && f.nonce == r.Nonce && f.seq >= r.Seq {
				x.bad = append(x.bad, fmt.Sprintf("OnRootFilled is called for %d after %d", r.Seq, f.seq))
			}
		}
		x.full = append(x.full, filled{r.Pub, r.Nonce, r.Seq, r.Hash})
	}
	conf.OnFillingBreaks = func(_ *node.Node, r *registry.Root, err error) {
		x.mx.Lock()
		defer x.mx.Unlock()
		x.breaks = append(x.breaks, err)
	}
	return
}

func (x *tnode) start(change func(conf *node.Config)) (n *node.Node, err error) {
	var conf = x.config()
	if change != nil {
		change(conf)
	}
	pbt.Within(patience, "NewNode", func() { n, err = node.NewNode(conf) })
	return
}

// stop closes the node and the database
func (x *tnode) stop() {
	pbt.Within(patience, "Close of node", func() { x.n.Close() })
	x.db.close()
}

// checkBad fails if a callback noticed something
func (x *tnode) checkBad(t failer) {
	x.mx.Lock()
	defer x.mx.Unlock()
	if len(x.bad) > 0 {
		t.Fatalf("node %d: %s", x.i, strings.Join(x.bad, "; "))
	}
}

// impatient after the first failure, for shrinking
var impatient int32

// eventually waits for what
func eventually(t failer, what string, fn func() string) {
	var wait = patience
	if atomic.LoadInt32(&impatient) == 1 {
		wait = 3 * time.Second
	}
	var dl = time.Now().Add(wait)
	for i := 0; ; i++ {
		var s = fn()
		if s == "" {
			return
		}
		if time.Now().After(dl) {
			atomic.StoreInt32(&impatient, 1)
			t.Fatalf("%s, never: %s", what, s)
		}
		if i < 20 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// authentic checks everything the node has stored: every object is under
// its hash, and every root is signed by owner of its feed
func authentic(t failer, x *tnode) {
	var err = x.db.cx.Iterate(func(key cipher.SHA256, rc uint32, val []byte) error {
		if hashOf(val) != key {
			return fmt.Errorf("object %s is not the object", short(key))
		}
		return nil
	})
	if err != nil {
		t.Fatalf("node %d: %v", x.i, err)
	}
	err = x.db.idx.Tx(func(fs data.Feeds) error {
		return fs.Iterate(func(pk cipher.PubKey) error {
			var hs, err = fs.Heads(pk)
			if err != nil {
				return err
			}
			return hs.Iterate(func(nonce uint64) error {
				var rs, err = hs.Roots(nonce)
				if err != nil {
					return err
				}
				return rs.Ascend(func(dr *data.Root) error {
					var val, _, err = x.db.cx.Get(dr.Hash, 0)
					if err != nil {
						return fmt.Errorf("root %d/%d: %v", nonce, dr.Seq, err)
					}
					if err = cipher.VerifyPubKeySignedHash(pk, dr.Sig, dr.Hash); err != nil {
						return fmt.Errorf("root %d/%d: %v", nonce, dr.Seq, err)
					}
					var r *registry.Root
					if r, err = registry.DecodeRoot(val); err != nil {
						return fmt.Errorf("root %d/%d: %v", nonce, dr.Seq, err)
					}
					if r.Pub != pk || r.Nonce != nonce || r.Seq != dr.Seq || r.Prev != dr.Prev {
						return fmt.Errorf("root %d/%d is %d/%d of %s", nonce, dr.Seq, r.Nonce, r.Seq, r.Pub.Hex())
					}
					return nil
				})
			})
		})
	})
	if err != nil {
		t.Fatalf("node %d: %v", x.i, err)
	}
}

// complete checks that everything the root refers to is in the database of
// the node and is equal to the model
func complete(t failer, x *tnode, refs []registry.Dynamic, vs vals) {
	var co = x.n.Container()
	var c = newCounter(getIn(vs))
	for _, d := range refs {
		c.object(d.Hash)
	}
	for h := range c.count {
		var val, _, err = co.Get(h, 0)
		if err != nil {
			t.Fatalf("node %d: object %s of full root: %v", x.i, short(h), err)
		}
		if !bytes.Equal(val, vs[h]) {
			t.Fatalf("node %d: object %s is another", x.i, short(h))
		}
	}
}

// owner of a feed saves roots
type owner struct {
	x       *tnode
	key     keyPair
	up      map[uint64]*skyobject.Unpack
	roots   map[uint64]*registry.Root
	last    *registry.Root // last published
	history map[[2]uint64]*registry.Root
}

func newOwner(t failer, x *tnode, key keyPair) (o *owner) {
	if err := x.n.Share(key.pk); err != nil {
		t.Fatalf("share: %v", err)
	}
	return &owner{x: x, key: key, up: map[uint64]*skyobject.Unpack{}, roots: map[uint64]*registry.Root{}, history: map[[2]uint64]*registry.Root{}}
}

// save new root of given objects
func (o *owner) save(t failer, p *pool, nonce uint64, refs []registry.Dynamic) (r *registry.Root) {
	var up, ok = o.up[nonce]
	var err error
	if !ok {
		if up, err = o.x.n.Container().Unpack(o.key.sk, regs[0]); err != nil {
			t.Fatalf("unpack: %v", err)
		}
		o.up[nonce] = up
		o.roots[nonce] = &registry.Root{Pub: o.key.pk, Nonce: nonce}
	}
	r = o.roots[nonce]
	r.Refs = refs
	for _, d := range refs {
		if d.Hash == (hash{}) {
			continue
		}
		for _, k := range p.closure(d.Hash) {
			if err = up.Set(k, p.vals[k]); err != nil {
				t.Fatalf("set: %v", err)
			}
		}
	}
	if err = o.x.n.Container().Save(up, r); err != nil {
		t.Fatalf("save: %v", err)
	}
	var cp = *r
	cp.Refs = append([]registry.Dynamic(nil), refs...)
	o.last = &cp
	o.history[[2]uint64{nonce, r.Seq}] = &cp
	return &cp
}

func drawRefs(t *rapid.T, p *pool, depth int) (refs []registry.Dynamic) {
	for j := rapid.IntRange(1, 3).Draw(t, "branches"); j > 0; j-- {
		refs = append(refs, p.dynamic(t, depth))
	}
	return
}

// broken is last filling errors
func (x *tnode) broken() []error {
	x.mx.Lock()
	defer x.mx.Unlock()
	return append([]error(nil), x.breaks...)
}

// pick one of the xs; unlike rapid.SampledFrom it doesn't print the pick, that
// can be in use of other goroutines
func pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}
