package gen

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"
)

// Object of a graph
type Object struct {
	Type  int
	Value *Value
	Hash  cipher.SHA256
	ID    string
}

// Graph of objects
type Graph struct {
	W      *World
	Pfx    string // of tokens of objects
	Degree int    // of references (zero - drawn for every one)
	ByType map[int][]*Object
	All    map[cipher.SHA256]*Object
	List   []*Object

	Nodes map[cipher.SHA256][]byte          // nodes of references trees
	Trees map[cipher.SHA256][]cipher.SHA256 // root node of references -> its elements
	seen  map[cipher.SHA256][]Visit         // root node -> nodes
}

// NewGraph without objects
func NewGraph(w *World) *Graph {
	return &Graph{
		W:      w,
		ByType: map[int][]*Object{},
		All:    map[cipher.SHA256]*Object{},
		Nodes:  map[cipher.SHA256][]byte{},
		Trees:  map[cipher.SHA256][]cipher.SHA256{},
		seen:   map[cipher.SHA256][]Visit{},
	}
}

// Visit of a walk
type Visit struct {
	Hash  cipher.SHA256
	Depth int
}

func (v Visit) String() string { return fmt.Sprintf("%d:%s", v.Depth, v.Hash.Hex()[:6]) }

func (g *Graph) pick(t *rapid.T, typ int) (o *Object) {
	var os = g.ByType[typ]
	if len(os) == 0 || rapid.IntRange(0, 5).Draw(t, "blank") == 0 {
		return nil
	}
	// prefer the last ones
	var i = rapid.IntRange(0, len(os)-1).Draw(t, "object")
	return os[len(os)-1-i]
}

// DrawRef is for Refs interface
func (g *Graph) DrawRef(t *rapid.T, d *Desc) (c Child) {
	c.Ref, c.Type = d.Ref, d.To
	switch d.Ref {
	case registry.ReferenceTypeSingle:
		if o := g.pick(t, d.To); o != nil {
			c.Hash = o.Hash
		}
	case registry.ReferenceTypeDynamic:
		c.Type = rapid.IntRange(0, len(g.W.Types)-1).Draw(t, "dynamic type")
		if o := g.pick(t, c.Type); o != nil {
			c.Hash, c.Schema = o.Hash, true
		} else {
			c.Schema = rapid.IntRange(0, 2).Draw(t, "typed blank") == 0
		}
	case registry.ReferenceTypeSlice:
		if len(g.ByType[d.To]) == 0 {
			if rapid.IntRange(0, 3).Draw(t, "blank elements") > 0 {
				return
			}
		}
		var n = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 9}).Draw(t, "elements")
		for i := 0; i < n; i++ {
			var h cipher.SHA256
			if o := g.pick(t, d.To); o != nil {
				h = o.Hash
			}
			c.List = append(c.List, h)
		}
		var deg = g.Degree
		if deg == 0 {
			deg = rapid.SampledFrom([]int{2, 3, 16}).Draw(t, "degree")
		}
		c.Hash = g.Tree(c.List, deg)
	}
	return
}

// Tree stores references tree of given elements, as the format of nodes
// says: depth (of the root node), degree (of the root node), length, elements
func (g *Graph) Tree(list []cipher.SHA256, degree int) (hash cipher.SHA256) {
	if len(list) == 0 {
		return
	}
	var depth, capacity = 0, degree
	for capacity < len(list) {
		depth++
		capacity *= degree
	}
	var visits []Visit
	var build func(list []cipher.SHA256, depth, capacity int, root bool) cipher.SHA256
	build = func(list []cipher.SHA256, depth, capacity int, root bool) (h cipher.SHA256) {
		var els []cipher.SHA256
		var sub [][]Visit
		if depth == 0 {
			els = list
			for _, e := range list {
				sub = append(sub, []Visit{{e, 0}})
			}
		} else {
			var step = capacity / degree
			for i := 0; i < len(list); i += step {
				var to = i + step
				if to > len(list) {
					to = len(list)
				}
				var save = visits
				visits = nil
				var e = build(list[i:to], depth-1, step, false)
				els = append(els, e)
				sub = append(sub, append([]Visit{{e, depth}}, visits...))
				visits = save
			}
		}
		var b []byte
		if root {
			b = binary.LittleEndian.AppendUint32(b, uint32(depth))
			b = binary.LittleEndian.AppendUint32(b, uint32(degree))
		}
		b = binary.LittleEndian.AppendUint32(b, uint32(len(list)))
		b = binary.LittleEndian.AppendUint32(b, uint32(len(els)))
		for _, e := range els {
			b = append(b, e[:]...)
		}
		h = cipher.SHA256(sha256.Sum256(b))
		g.Nodes[h] = b
		for _, s := range sub {
			visits = append(visits, s...)
		}
		return
	}
	hash = build(list, depth, capacity, true)
	g.Trees[hash] = list
	g.seen[hash] = append([]Visit{{hash, depth + 1}}, visits...)
	return
}

// DrawObject adds an object
func (g *Graph) DrawObject(t *rapid.T) (o *Object) {
	return g.DrawObjectOf(t, rapid.IntRange(0, len(g.W.Types)-1).Draw(t, "type of object"))
}

// DrawObjectOf adds an object of given type
func (g *Graph) DrawObjectOf(t *rapid.T, typ int) (o *Object) {
	o = &Object{Type: typ, ID: fmt.Sprintf("%so%d", g.Pfx, len(g.List))}
	o.Value = g.W.DrawValue(t, g.W.Types[typ], g, o.ID)
	o.Hash = o.Value.Hash()
	g.All[o.Hash] = o
	g.ByType[typ] = append(g.ByType[typ], o)
	g.List = append(g.List, o)
	return
}

// Store is all objects and nodes
func (g *Graph) Store() (m map[cipher.SHA256][]byte) {
	m = map[cipher.SHA256][]byte{}
	for h, b := range g.Nodes {
		m[h] = b
	}
	for h, o := range g.All {
		m[h] = o.Value.Enc
	}
	return
}

// Walker is the model of a walk
type Walker struct {
	G       *Graph
	Missing map[cipher.SHA256]bool // objects that can't be loaded
	Func    func(v Visit) (deeper bool, stop error)
	Err     error // ErrMissing is returned by the walk
}

// WalkChild is the model of walking of one reference
func (w *Walker) WalkChild(c Child) (err error) {
	switch c.Ref {
	case registry.ReferenceTypeSlice:
		if c.Hash == (cipher.SHA256{}) {
			_, err = w.Func(Visit{c.Hash, 1})
			return
		}
		return w.walkTree(c)
	default:
		var deeper bool
		if deeper, err = w.Func(Visit{c.Hash, 0}); err != nil || !deeper {
			return
		}
		return w.walkObject(c.Hash)
	}
}

func (w *Walker) walkObject(h cipher.SHA256) (err error) {
	if h == (cipher.SHA256{}) {
		return
	}
	var o = w.G.All[h]
	if !o.Value.D.HasRefs() {
		return
	}
	if w.Missing[h] {
		return w.Err
	}
	for _, c := range o.Value.Children {
		if err = w.WalkChild(c); err != nil {
			return
		}
	}
	return
}

// the tree is visited in order of its nodes, an element that
// is skipped is skipped with everything below it
func (w *Walker) walkTree(c Child) (err error) {
	if w.Missing[c.Hash] {
		return w.Err
	}
	var deeper bool
	var vs = w.G.seen[c.Hash]
	if deeper, err = w.Func(vs[0]); err != nil || !deeper {
		return
	}
	for i := 1; i < len(vs); {
		var v = vs[i]
		if deeper, err = w.Func(v); err != nil {
			return
		}
		i++
		if v.Depth == 0 {
			if deeper {
				if err = w.walkObject(v.Hash); err != nil {
					return
				}
			}
			continue
		}
		if !deeper {
			for i < len(vs) && vs[i].Depth < v.Depth {
				i++
			}
			continue
		}
		if w.Missing[v.Hash] {
			return w.Err
		}
	}
	return
}
