package tsky

import (
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
)

// Types of objects. First byte of an encoded object is its type. Thus,
// objects of different types never have the same hash.

type Leaf struct {
	T uint8
	N uint32
	S string
}

type Pair struct {
	T uint8
	N uint32
	A registry.Ref `skyobject:"schema=t.Leaf"`
	B registry.Ref `skyobject:"schema=t.Leaf"`
}

type List struct {
	T uint8
	N uint32
	L registry.Refs `skyobject:"schema=t.Leaf"`
}

type Deep struct {
	T uint8
	N uint32
	P registry.Ref  `skyobject:"schema=t.Pair"`
	M registry.Refs `skyobject:"schema=t.List"`
	D registry.Dynamic
	V []registry.Dynamic
	A [2]registry.Dynamic
	E []Item
	B Body
}

// Item and Body are parts of Deep, they are never objects
type Item struct {
	X uint16
	D registry.Dynamic
}

type Body struct {
	R registry.Ref  `skyobject:"schema=t.Leaf"`
	L registry.Refs `skyobject:"schema=t.Leaf"`
}

// Extra is registered by one of registries only
type Extra struct {
	T uint8
	X []uint16
}

const (
	tLeaf = 0xa1 + iota
	tPair
	tList
	tDeep
)

var typeNames = map[uint8]string{tLeaf: "t.Leaf", tPair: "t.Pair", tList: "t.List", tDeep: "t.Deep"}

func newReg(extra bool) *registry.Registry {
	return registry.NewRegistry(func(r *registry.Reg) {
		r.Register("t.Leaf", Leaf{})
		r.Register("t.Pair", Pair{})
		r.Register("t.List", List{})
		r.Register("t.Item", Item{})
		r.Register("t.Body", Body{})
		r.Register("t.Deep", Deep{})
		if extra {
			r.Register("t.Extra", Extra{})
		}
	})
}

var (
	regs    = [2]*registry.Registry{newReg(false), newReg(true)}
	regKeys = [2]cipher.SHA256{cipher.SHA256(regs[0].Reference()), cipher.SHA256(regs[1].Reference())}
)

type keyPair struct {
	pk cipher.PubKey
	sk cipher.SecKey
}

var keys = func() (ks []keyPair) {
	for i := 0; i < 4; i++ {
		var pk, sk = cipher.MustGenerateDeterministicKeyPair([]byte{byte(i), 77})
		ks = append(ks, keyPair{pk, sk})
	}
	return
}()

func schemaOf(typ uint8) registry.SchemaRef {
	var s, err = regs[0].SchemaByName(typeNames[typ])
	if err != nil {
		panic(err)
	}
	return s.Reference()
}

var schemas = map[uint8]registry.SchemaRef{tLeaf: schemaOf(tLeaf), tPair: schemaOf(tPair), tList: schemaOf(tList), tDeep: schemaOf(tDeep)}

type (
	hash = cipher.SHA256
	vals = map[hash][]byte
)

// kinds of references of encoded objects
type child struct {
	h    hash
	tree bool
}

var errMissing = errors.New("missing")

func take(b *[]byte, n int) (p []byte) {
	if len(*b) < n {
		panic(fmt.Sprintf("harness: object is too short: %x", *b))
	}
	p, *b = (*b)[:n], (*b)[n:]
	return
}

func takeHash(b *[]byte) (h hash) { copy(h[:], take(b, 32)); return }

// children of an encoded object, independent of the code under test
func children(val []byte) (cs []child) {
	var b = val
	var typ = take(&b, 1)[0]
	take(&b, 4)
	switch typ {
	case tLeaf:
	case tPair:
		cs = append(cs, child{h: takeHash(&b)}, child{h: takeHash(&b)})
	case tList:
		cs = append(cs, child{h: takeHash(&b), tree: true})
	case tDeep:
		cs = append(cs, child{h: takeHash(&b)}, child{h: takeHash(&b), tree: true})
		cs = append(cs, child{h: takeHash(&b)})
		take(&b, 32)
		var n = binary.LittleEndian.Uint32(take(&b, 4))
		for i := 0; i < int(n); i++ {
			cs = append(cs, child{h: takeHash(&b)})
			take(&b, 32)
		}
		for i := 0; i < 2; i++ {
			cs = append(cs, child{h: takeHash(&b)})
			take(&b, 32)
		}
		n = binary.LittleEndian.Uint32(take(&b, 4))
		for i := 0; i < int(n); i++ {
			take(&b, 2)
			cs = append(cs, child{h: takeHash(&b)})
			take(&b, 32)
		}
		cs = append(cs, child{h: takeHash(&b)}, child{h: takeHash(&b), tree: true})
	default:
		panic(fmt.Sprintf("harness: unknown object: %x", val))
	}
	return
}

// walker of a content by the model
type counter struct {
	get   func(h hash) ([]byte, bool)
	count map[hash]int
	miss  []hash
}

func newCounter(get func(h hash) ([]byte, bool)) *counter {
	return &counter{get: get, count: map[hash]int{}}
}

func getIn(m vals) func(h hash) ([]byte, bool) {
	return func(h hash) (v []byte, ok bool) { v, ok = m[h]; return }
}

func (c *counter) child(x child) {
	if x.tree {
		c.node(x.h, -1)
	} else {
		c.object(x.h)
	}
}

// use of h, returns its value if this is the first use
func (c *counter) use(h hash) (val []byte) {
	if h == (hash{}) {
		return
	}
	if c.count[h]++; c.count[h] > 1 {
		return
	}
	var ok bool
	if val, ok = c.get(h); !ok {
		c.miss = append(c.miss, h)
		return nil
	}
	return
}

func (c *counter) object(h hash) {
	if val := c.use(h); val != nil {
		for _, x := range children(val) {
			c.child(x)
		}
	}
}

// node of a references tree (depth -1 means root of the tree)
func (c *counter) node(h hash, depth int) {
	var val = c.use(h)
	if val == nil {
		return
	}
	var b = val
	if depth < 0 {
		depth = int(binary.LittleEndian.Uint32(take(&b, 4)))
		take(&b, 4)
	}
	take(&b, 4)
	var n = int(binary.LittleEndian.Uint32(take(&b, 4)))
	for i := 0; i < n; i++ {
		var e = takeHash(&b)
		if depth == 0 {
			c.object(e)
		} else {
			c.node(e, depth-1)
		}
	}
}

func (c *counter) root(rt *rootInfo) {
	c.count[rt.hash]++
	c.count[hash(rt.reg)]++
	for _, d := range rt.refs {
		c.object(d.Hash)
	}
}

// elements of a tree
func elements(m vals, h hash) (es []hash) {
	if h == (hash{}) {
		return
	}
	var walk func(b []byte, depth int)
	walk = func(b []byte, depth int) {
		take(&b, 4)
		var n = int(binary.LittleEndian.Uint32(take(&b, 4)))
		for i := 0; i < n; i++ {
			var e = takeHash(&b)
			if depth == 0 {
				es = append(es, e)
			} else {
				walk(m[e], depth-1)
			}
		}
	}
	var b = m[h]
	var depth = int(binary.LittleEndian.Uint32(take(&b, 4)))
	take(&b, 4)
	walk(b, depth)
	return
}

// pool of generated objects
type pool struct {
	vals vals
	by   map[uint8][]hash
	all  []hash
	n    uint32
	salt uint32
}

func newPool() *pool { return &pool{vals: vals{}, by: map[uint8][]hash{}} }

func (p *pool) add(typ uint8, val []byte) (h hash) {
	h = hashOf(val)
	if _, ok := p.vals[h]; !ok {
		p.vals[h] = val
		p.by[typ] = append(p.by[typ], h)
		p.all = append(p.all, h)
	}
	return
}

func (p *pool) id(typ uint8) []byte {
	p.n++
	return binary.LittleEndian.AppendUint32([]byte{typ}, p.n+p.salt)
}

func (p *pool) leaf(size int) hash {
	var b = p.id(tLeaf)
	b = binary.LittleEndian.AppendUint32(b, uint32(size))
	for i := 0; i < size; i++ {
		b = append(b, byte('a'+(int(p.n)+i)%26))
	}
	return p.add(tLeaf, b)
}

// pick existing object, or blank
func (p *pool) pick(t *rapid.T, typ uint8) (h hash) {
	var l = p.by[typ]
	var i = rapid.IntRange(-1, len(l)-1).Draw(t, "object")
	if i < 0 {
		return
	}
	return l[len(l)-1-i]
}

// old or new one
func (p *pool) some(t *rapid.T, typ uint8, depth int) hash {
	if depth <= 0 || rapid.IntRange(0, 2).Draw(t, "new") > 0 {
		return p.pick(t, typ)
	}
	return p.draw(t, typ, depth-1)
}

func (p *pool) tree(t *rapid.T, typ uint8, depth, max int) hash {
	var n = rapid.IntRange(0, max).Draw(t, "elements")
	var list []hash
	for i := 0; i < n; i++ {
		list = append(list, p.some(t, typ, depth))
	}
	return p.treeOf(list, rapid.SampledFrom([]int{2, 3, 16}).Draw(t, "degree"))
}

func (p *pool) treeOf(list []hash, degree int) (h hash) {
	var g = gen.NewGraph(nil)
	h = g.Tree(list, degree)
	for k, v := range g.Nodes {
		p.vals[k] = v
	}
	return
}

func (p *pool) dynamic(t *rapid.T, depth int) registry.Dynamic {
	var typ = uint8(rapid.IntRange(tLeaf, tDeep).Draw(t, "dynamic"))
	return p.dynamicOf(p.some(t, typ, depth))
}

func (p *pool) dynamicOf(h hash) (d registry.Dynamic) {
	if h == (hash{}) {
		return
	}
	d.Hash, d.Schema = h, schemas[p.vals[h][0]]
	return
}

func (p *pool) draw(t *rapid.T, typ uint8, depth int) (h hash) {
	switch typ {
	case tLeaf:
		return p.leaf(rapid.IntRange(0, 40).Draw(t, "size"))
	case tPair:
		var x, y = p.some(t, tLeaf, depth), p.some(t, tLeaf, depth)
		var b = p.id(typ)
		b = append(b, x[:]...)
		return p.add(typ, append(b, y[:]...))
	case tList:
		var x = p.tree(t, tLeaf, depth, 7)
		var b = p.id(typ)
		return p.add(typ, append(b, x[:]...))
	}
	var b []byte
	var put = func(h hash) { b = append(b, h[:]...) }
	var putDyn = func(d registry.Dynamic) {
		put(d.Hash)
		put(hash(d.Schema))
	}
	put(p.some(t, tPair, depth))
	put(p.tree(t, tList, depth, 3))
	putDyn(p.dynamic(t, depth))
	var n = rapid.IntRange(0, 2).Draw(t, "dynamics")
	b = binary.LittleEndian.AppendUint32(b, uint32(n))
	for i := 0; i < n; i++ {
		putDyn(p.dynamic(t, depth))
	}
	putDyn(p.dynamic(t, depth))
	putDyn(p.dynamic(t, depth))
	n = rapid.IntRange(0, 2).Draw(t, "items")
	b = binary.LittleEndian.AppendUint32(b, uint32(n))
	for i := 0; i < n; i++ {
		b = append(b, byte(i), 1)
		putDyn(p.dynamic(t, depth))
	}
	put(p.some(t, tLeaf, depth))
	put(p.tree(t, tLeaf, depth, 3))
	return p.add(typ, append(p.id(typ), b...))
}

func (p *pool) drawAny(t *rapid.T, depth int) hash {
	return p.draw(t, uint8(rapid.IntRange(tLeaf, tDeep).Draw(t, "type")), depth)
}

// closure of objects: everything that can be reached, in order of storing
// (an object is after objects it refers to)
func (p *pool) closure(h hash) (hs []hash) {
	var c = newCounter(nil)
	c.get = func(x hash) (v []byte, ok bool) {
		if v, ok = p.vals[x]; !ok {
			panic("harness: unknown object")
		}
		hs = append(hs, x)
		return
	}
	c.object(h)
	for i, j := 0, len(hs)-1; i < j; i, j = i+1, j-1 {
		hs[i], hs[j] = hs[j], hs[i]
	}
	return
}

// a stored root
type rootInfo struct {
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	time  int64
	prev  hash
	hash  hash
	sig   cipher.Sig
	refs  []registry.Dynamic
	reg   registry.RegistryRef
	val   []byte
}

func infoOf(r *registry.Root) *rootInfo {
	return &rootInfo{pk: r.Pub, nonce: r.Nonce, seq: r.Seq, time: r.Time, prev: r.Prev, hash: r.Hash, sig: r.Sig,
		refs: append([]registry.Dynamic(nil), r.Refs...), reg: r.Reg, val: r.Encode()}
}
