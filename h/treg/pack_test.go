package treg

import (
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errMissing = errors.New("object is not in the store")

// store of objects
type store map[cipher.SHA256][]byte

// pack is the simplest registry.Pack: a map
type pack struct {
	m     store
	reg   *registry.Registry
	deg   registry.Degree
	flags registry.Flags

	gets map[cipher.SHA256]int // calls of Get
	sets int
	bad  error // misuse of the pack

	readOnly bool
}

func newPack(reg *registry.Registry, deg registry.Degree, flags registry.Flags) *pack {
	return &pack{m: make(store), reg: reg, deg: deg, flags: flags}
}

// on opens the same store with other settings
func (p *pack) on(deg registry.Degree, flags registry.Flags) *pack {
	return &pack{m: p.m, reg: p.reg, deg: deg, flags: flags}
}

func (p *pack) Registry() *registry.Registry { return p.reg }

func (p *pack) Get(key cipher.SHA256) ([]byte, error) {
	if p.gets != nil {
		p.gets[key]++
	}
	if v, ok := p.m[key]; ok {
		return append([]byte(nil), v...), nil
	}
	return nil, errMissing
}

func (p *pack) Set(key cipher.SHA256, val []byte) error {
	if key != cipher.SHA256(sha256.Sum256(val)) {
		p.bad = fmt.Errorf("Set with a key that is not the hash of the value")
	}
	if p.readOnly {
		p.bad = fmt.Errorf("unexpected Set")
	}
	p.sets++
	p.m[key] = append([]byte(nil), val...)
	return nil
}

func (p *pack) Add(val []byte) (key cipher.SHA256, err error) {
	key = cipher.SHA256(sha256.Sum256(val))
	return key, p.Set(key, val)
}

func (p *pack) Degree() registry.Degree { return p.deg }

func (p *pack) SetDegree(d registry.Degree) (err error) {
	if err = d.Validate(); err == nil {
		p.deg = d
	}
	return
}

func (p *pack) Flags() registry.Flags       { return p.flags }
func (p *pack) AddFlags(f registry.Flags)   { p.flags |= f }
func (p *pack) ClearFlags(f registry.Flags) { p.flags &^= f }

// independent reader of stored references trees

type refsNode struct {
	depth  int
	degree int
	length int
	elems  []cipher.SHA256
}

func u32(b []byte) (uint32, []byte, error) {
	if len(b) < 4 {
		return 0, nil, errors.New("unexpected end of node")
	}
	return binary.LittleEndian.Uint32(b), b[4:], nil
}

func readElems(b []byte) (es []cipher.SHA256, err error) {
	var n uint32
	if n, b, err = u32(b); err != nil {
		return
	}
	if uint64(len(b)) != uint64(n)*32 {
		return nil, fmt.Errorf("node says %d elements, but has %d bytes of them", n, len(b))
	}
	for ; len(b) > 0; b = b[32:] {
		var h cipher.SHA256
		copy(h[:], b)
		es = append(es, h)
	}
	return
}

// readTree reads the sequence of hashes under the hash of a references tree,
// checking that it is well-formed. The visit function (if any) is called for
// the root and every node in order of a walk
func readTree(m store, hash cipher.SHA256, visit func(h cipher.SHA256, depth int)) (
	list []cipher.SHA256, root refsNode, err error) {

	if visit == nil {
		visit = func(cipher.SHA256, int) {}
	}
	if hash == (cipher.SHA256{}) {
		visit(hash, 1)
		return
	}
	b, ok := m[hash]
	if !ok {
		return nil, root, fmt.Errorf("root node of the tree: %w", errMissing)
	}
	var depth, degree, length uint32
	if depth, b, err = u32(b); err != nil {
		return
	}
	if degree, b, err = u32(b); err != nil {
		return
	}
	if length, b, err = u32(b); err != nil {
		return
	}
	root = refsNode{depth: int(depth), degree: int(degree), length: int(length)}
	if root.elems, err = readElems(b); err != nil {
		return
	}
	if degree < 2 || depth > 64 || length == 0 {
		return nil, root, fmt.Errorf("malformed root node: depth %d, degree %d, length %d", depth, degree, length)
	}
	visit(hash, root.depth+1)
	list, err = readNode(m, root, visit)
	return
}

func readNode(m store, n refsNode, visit func(h cipher.SHA256, depth int)) (list []cipher.SHA256, err error) {
	if len(n.elems) == 0 {
		return nil, fmt.Errorf("empty node at depth %d", n.depth)
	}
	if len(n.elems) > n.degree {
		return nil, fmt.Errorf("%d elements in a node of degree %d", len(n.elems), n.degree)
	}
	for _, h := range n.elems {
		visit(h, n.depth)
		if n.depth == 0 {
			list = append(list, h)
			continue
		}
		b, ok := m[h]
		if !ok {
			return nil, fmt.Errorf("node %s at depth %d: %w", h.Hex()[:8], n.depth, errMissing)
		}
		var c = refsNode{depth: n.depth - 1, degree: n.degree}
		var length uint32
		if length, b, err = u32(b); err != nil {
			return
		}
		c.length = int(length)
		if c.elems, err = readElems(b); err != nil {
			return
		}
		var sub []cipher.SHA256
		if sub, err = readNode(m, c, visit); err != nil {
			return
		}
		list = append(list, sub...)
	}
	if len(list) != n.length {
		return nil, fmt.Errorf("node at depth %d says its length is %d, but has %d elements", n.depth, n.length, len(list))
	}
	return
}
