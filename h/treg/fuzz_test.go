package treg

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

// guard calls the function, that must return soon and must not take
// more memory than the size of its input (in bytes) explains. A panic is
// reported by rapid
func guard(t *rapid.T, what string, size int, fn func()) {
	t.Helper()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	pbt.Within(60*time.Second, what, fn)
	runtime.ReadMemStats(&after)
	if got, max := after.TotalAlloc-before.TotalAlloc, uint64(64<<20+size*4096); got > max {
		t.Fatalf("%s takes %d bytes of memory for %d bytes of input", what, got, size)
	}
}

// mutate valid encoding
func mutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := rapid.IntRange(1, 4).Draw(t, "mutations"); k > 0; k-- {
		var pos = func(n int) int {
			if n <= 0 {
				return 0
			}
			return rapid.IntRange(0, n-1).Draw(t, "position")
		}
		switch rapid.IntRange(0, 5).Draw(t, "mutation") {
		case 0: // cut
			b = b[:pos(len(b)+1)]
		case 1: // extend
			b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "tail")...)
		case 2: // change a byte
			if len(b) > 0 {
				b[pos(len(b))] = rapid.Byte().Draw(t, "byte")
			}
		case 3: // change a length
			if len(b) > 4 {
				binary.LittleEndian.PutUint32(b[pos(len(b)-4):], drawU32(t))
			}
		case 4: // remove
			if len(b) > 1 {
				var i = pos(len(b))
				var j = i + pos(len(b)-i+1)
				b = append(b[:i:i], b[j:]...)
			}
		case 5: // repeat
			if len(b) > 1 {
				var i = pos(len(b))
				var j = i + pos(len(b)-i+1)
				b = append(b[:j:j], b[i:]...)
			}
		}
	}
	return b
}

func drawU32(t *rapid.T) uint32 {
	return rapid.OneOf(
		rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 16, 255, 256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}),
		rapid.Uint32(),
	).Draw(t, "u32")
}

// hostile registry

type rawSchema struct {
	ref, kind uint32
	name      string
	ln        uint32
	fields    []rawField
	elem      *rawSchema
}

type rawField struct {
	name, tag string
	kind      uint32
	s         *rawSchema
}

func pstr(b []byte, s []byte) []byte {
	return append(binary.LittleEndian.AppendUint32(b, uint32(len(s))), s...)
}

func (s *rawSchema) enc() (b []byte) {
	b = binary.LittleEndian.AppendUint32(b, s.ref)
	b = binary.LittleEndian.AppendUint32(b, s.kind)
	b = pstr(b, []byte(s.name))
	b = binary.LittleEndian.AppendUint32(b, s.ln)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(s.fields)))
	for _, f := range s.fields {
		var e []byte
		e = pstr(e, []byte(f.name))
		e = pstr(e, []byte(f.tag))
		e = binary.LittleEndian.AppendUint32(e, f.kind)
		e = pstr(e, f.s.enc())
		b = pstr(b, e)
	}
	if s.elem == nil {
		return pstr(b, nil)
	}
	return pstr(b, s.elem.enc())
}

func (s *rawSchema) short() *rawSchema { return &rawSchema{kind: s.kind, name: s.name} }

type hostile struct {
	reg  []*rawSchema
	evil int // per mille
}

func (h *hostile) evilNow(t *rapid.T) bool {
	return h.evil > 0 && rapid.IntRange(0, 999).Draw(t, "evil") < h.evil
}

func (h *hostile) draw(t *rapid.T, less, depth int) *rawSchema {
	if h.evilNow(t) {
		switch rapid.IntRange(0, 5).Draw(t, "evil schema") {
		case 0:
			return &rawSchema{kind: uint32(reflect.Struct), name: "nobody"}
		case 1:
			return &rawSchema{ref: drawU32(t), kind: drawU32(t)}
		case 2: // the chain
			var s = &rawSchema{kind: uint32(reflect.Uint8)}
			for n := rapid.SampledFrom([]int{5, 100, 126, 127, 128, 129, 130, 300, 1500}).Draw(t, "chain"); n > 0; n-- {
				s = &rawSchema{kind: uint32(reflect.Slice), elem: s}
			}
			return s
		case 3: // in full or short in a wrong place
			return h.reg[rapid.IntRange(0, len(h.reg)-1).Draw(t, "type")].short()
		case 4: // in full
			if less == 0 {
				return &rawSchema{kind: uint32(reflect.Slice)}
			}
			return &rawSchema{kind: uint32(reflect.Slice), elem: h.reg[rapid.IntRange(0, less-1).Draw(t, "type")]}
		case 5:
			return &rawSchema{ref: 1, elem: &rawSchema{kind: uint32(reflect.Uint8), name: h.reg[0].name}}
		}
	}
	var k = rapid.IntRange(0, 11).Draw(t, "kind")
	if depth > 4 && k > 4 {
		k = 0
	}
	switch k {
	case 0, 1: // also kinds nobody can encode
		var kind = rapid.OneOf(rapid.Uint32Range(0, 30), rapid.SampledFrom([]uint32{1, 5, 6, 8, 9, 11, 24, 24, 1 << 31})).Draw(t, "basic")
		if kind == uint32(reflect.Array) || kind == uint32(reflect.Slice) {
			kind = uint32(reflect.Uint8)
		}
		return &rawSchema{kind: kind, name: rapid.SampledFrom([]string{"", "x", "string"}).Draw(t, "name")}
	case 2:
		return &rawSchema{ref: 3, kind: uint32(reflect.Interface)}
	case 3, 4:
		return &rawSchema{ref: rapid.Uint32Range(1, 2).Draw(t, "ref type"), kind: drawKind(t),
			elem: h.reg[rapid.IntRange(0, len(h.reg)-1).Draw(t, "type")].short()}
	case 5, 6, 7, 8: // array or slice
		var s = &rawSchema{kind: uint32(reflect.Slice), name: rapid.SampledFrom([]string{"", "named"}).Draw(t, "name")}
		if k > 6 {
			s.kind = uint32(reflect.Array)
			s.ln = rapid.OneOf(rapid.Uint32Range(0, 4), rapid.SampledFrom([]uint32{1000, 1 << 31, 1<<32 - 1})).Draw(t, "length")
		}
		if rapid.IntRange(0, 3).Draw(t, "registered") == 0 {
			var m = less - 1 // no cycle
			if m < 0 || h.evilNow(t) {
				m = len(h.reg) - 1
			}
			s.elem = h.reg[rapid.IntRange(0, m).Draw(t, "type")].short()
			return s
		}
		s.elem = h.draw(t, less, depth+1)
		if s.elem.kind == uint32(reflect.Struct) && s.elem.name != "" {
			s.elem = s.elem.short()
		}
		return s
	case 9: // registered in full
		if less == 0 {
			return &rawSchema{kind: uint32(reflect.Uint16)}
		}
		return h.reg[rapid.IntRange(0, less-1).Draw(t, "type")]
	default:
		var s = &rawSchema{kind: uint32(reflect.Struct)}
		h.fields(t, s, less, depth+1)
		return s
	}
}

func drawKind(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{uint32(reflect.Ptr), uint32(reflect.Ptr), uint32(reflect.Struct), 0, 77}).Draw(t, "kind")
}

func (h *hostile) fields(t *rapid.T, s *rawSchema, less, depth int) {
	for n := rapid.IntRange(0, 4).Draw(t, "fields"); n > 0; n-- {
		var f = rawField{
			name: rapid.SampledFrom([]string{"A", "B", ""}).Draw(t, "name"),
			tag:  rapid.SampledFrom([]string{"", `skyobject:"schema=a"`, "\x00"}).Draw(t, "tag"),
		}
		if h.evilNow(t) {
			f.kind = drawU32(t)
		}
		f.s = h.draw(t, less, depth)
		s.fields = append(s.fields, f)
	}
}

// drawHostile encodes registry that looks like a right one
func drawHostile(t *rapid.T) []byte {
	var h hostile
	h.evil = rapid.SampledFrom([]int{0, 0, 20, 200}).Draw(t, "evil")
	var n = rapid.IntRange(1, 5).Draw(t, "types")
	for i := 0; i < n; i++ {
		h.reg = append(h.reg, &rawSchema{kind: uint32(reflect.Struct), name: fmt.Sprintf("T%d", i)})
	}
	// a doubling chain
	var double = rapid.IntRange(0, 9).Draw(t, "double") == 0
	if double {
		n = rapid.IntRange(1, 60).Draw(t, "types")
		h.reg = h.reg[:0]
		for i := 0; i < n; i++ {
			h.reg = append(h.reg, &rawSchema{kind: uint32(reflect.Struct), name: fmt.Sprintf("T%02d", i)})
		}
	}
	for i, s := range h.reg {
		if double {
			if i > 0 {
				var kind = rapid.SampledFrom([]uint32{uint32(reflect.Slice), uint32(reflect.Array)}).Draw(t, "kind")
				for _, nm := range []string{"A", "B"} {
					s.fields = append(s.fields, rawField{name: nm, s: &rawSchema{kind: kind, ln: uint32(kind) % 3 % 2, elem: h.reg[i-1].short()}})
				}
			}
			continue
		}
		h.fields(t, s, i, 0)
	}
	var es []struct{ n, s []byte }
	for _, s := range h.reg {
		es = append(es, struct{ n, s []byte }{[]byte(s.name), s.enc()})
	}
	if h.evilNow(t) { // order, names
		switch rapid.IntRange(0, 2).Draw(t, "evil entries") {
		case 0:
			sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i].n, es[j].n) > 0 })
		case 1:
			es[0].n = []byte("another")
		case 2:
			es = append(es, es[len(es)-1])
		}
	}
	var b = binary.LittleEndian.AppendUint32(nil, uint32(len(es)))
	for _, e := range es {
		b = pstr(pstr(b, e.n), e.s)
	}
	return b
}

func names(b []byte) (s []string) {
	if len(b) < 4 {
		return
	}
	var n = binary.LittleEndian.Uint32(b)
	b = b[4:]
	var next = func() (x []byte) {
		if len(b) < 4 {
			b = nil
			return
		}
		var l = int(binary.LittleEndian.Uint32(b))
		if l > len(b)-4 {
			b = nil
			return
		}
		x, b = b[4:4+l], b[4+l:]
		return
	}
	for ; n > 0 && len(b) > 0; n-- {
		s = append(s, string(next()))
		next()
	}
	return
}

func TestR02Registry(t *testing.T) {
	pbt.Check(t, "R02 registry", 12000, 150000, func(t *rapid.T, c *pbt.Case) {
		var b []byte
		switch rapid.IntRange(0, 5).Draw(t, "source") {
		case 0:
			b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
			c.Class("any bytes")
		case 1:
			b = mutate(t, gen.DrawWorld(t, gen.Opts{}).Reg.Encode())
			c.Class("mutated valid one")
		default:
			b = drawHostile(t)
			c.Class("hostile")
			if rapid.IntRange(0, 4).Draw(t, "mutate") == 0 {
				b = mutate(t, b)
			}
		}
		c.Note("%x", sha256.Sum256(b))
		c.Note("%d bytes", len(b))
		var reg *registry.Registry
		var err error
		var in = append([]byte(nil), b...)
		guard(t, "DecodeRegistry", len(b), func() { reg, err = registry.DecodeRegistry(in) })
		if !bytes.Equal(in, b) {
			t.Fatal("DecodeRegistry changes its argument")
		}
		if err != nil {
			c.Class("rejected")
			if len(b) > 40 {
				c.NonTrivial()
			}
			return
		}
		c.NonTrivial()
		c.Class("decoded")
		if reg.Reference() != registry.RegistryRef(sha256.Sum256(b)) {
			t.Fatal("reference of decoded registry is not hash of the bytes")
		}
		guard(t, "Encode", len(b), func() {
			if !bytes.Equal(reg.Encode(), b) {
				t.Fatal("decoded registry has another encoding")
			}
		})
		var ss []registry.Schema
		for _, n := range names(b) {
			var s registry.Schema
			if s, err = reg.SchemaByName(n); err != nil {
				t.Fatalf("schema %q: %v", n, err)
			}
			if x, err := reg.SchemaByReference(s.Reference()); err != nil || x.Name() != s.Name() {
				t.Fatalf("schema %q by reference: %v", n, err)
			}
			ss = append(ss, s)
			guard(t, "String", len(b), func() { _ = s.String(); _ = s.HasReferences(); _ = s.Encode() })
			for _, f := range s.Fields() {
				guard(t, "String of field", len(b), func() { _ = f.String(); _ = f.Schema().HasReferences(); _ = f.Tag() })
			}
		}
		if len(ss) == 0 {
			return
		}
		useRegistry(t, c, reg, ss)
	})
}

// useRegistry reads arbitrary objects by schemas of the registry
func useRegistry(t *rapid.T, c *pbt.Case, reg *registry.Registry, ss []registry.Schema) {
	var p = newPack(reg, 16, 0)
	p.readOnly = true
	var keys []cipher.SHA256
	var put = func(b []byte) cipher.SHA256 {
		var h = cipher.SHA256(sha256.Sum256(b))
		p.m[h] = b
		keys = append(keys, h)
		return h
	}
	var key = func() (h cipher.SHA256) {
		if len(keys) == 0 || rapid.IntRange(0, 7).Draw(t, "blank key") == 0 {
			if rapid.IntRange(0, 3).Draw(t, "unknown key") == 0 {
				h[0] = 1
			}
			return
		}
		return keys[len(keys)-1-rapid.IntRange(0, len(keys)-1).Draw(t, "key")]
	}
	var budget = 12
	var build func(s registry.Schema, b []byte, depth int) []byte
	build = func(s registry.Schema, b []byte, depth int) []byte {
		if len(b) > 4096 || depth > 200 {
			return b
		}
		switch s.ReferenceType() {
		case registry.ReferenceTypeSingle, registry.ReferenceTypeSlice:
			if budget--; budget < 0 {
				return append(b, make([]byte, 32)...)
			}
			var h = key()
			return append(b, h[:]...)
		case registry.ReferenceTypeDynamic:
			if budget--; budget < 0 {
				return append(b, make([]byte, 64)...)
			}
			var h = key()
			b = append(b, h[:]...)
			var sr registry.SchemaRef
			if rapid.IntRange(0, 5).Draw(t, "schema") > 0 {
				sr = rapid.SampledFrom(ss).Draw(t, "schema").Reference()
			}
			return append(b, sr[:]...)
		}
		switch s.Kind() {
		case reflect.Struct:
			for _, f := range s.Fields() {
				b = build(f.Schema(), b, depth+1)
			}
		case reflect.Slice, reflect.String:
			var n = rapid.SampledFrom([]uint32{0, 1, 1, 2, 2, 5, 1 << 16, 1<<31 - 1, 1<<32 - 1}).Draw(t, "length")
			b = binary.LittleEndian.AppendUint32(b, n)
			for i := uint32(0); i < n && i < 3; i++ {
				if s.Kind() == reflect.String {
					b = append(b, 'a')
					continue
				}
				b = build(s.Elem(), b, depth+1)
			}
		case reflect.Array:
			for i := 0; i < s.Len() && i < 3; i++ {
				b = build(s.Elem(), b, depth+1)
			}
		default:
			b = append(b, make([]byte, 8)[:sizes[s.Kind()]]...)
		}
		return b
	}
	var tops []registry.Dynamic
	for n := rapid.IntRange(1, 4).Draw(t, "objects"); n > 0; n-- {
		if rapid.IntRange(0, 3).Draw(t, "node") == 0 {
			put(drawRefsNode(t, key, rapid.Bool().Draw(t, "root node")))
			continue
		}
		var s = rapid.SampledFrom(ss).Draw(t, "schema")
		var b = build(s, nil, 0)
		budget = 6
		var orig = len(b)
		switch rapid.IntRange(0, 5).Draw(t, "break") {
		case 0:
			b = mutate(t, b)
		case 1:
			b = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
		}
		_ = orig
		guard(t, "Size", len(b), func() {
			if n, err := s.Size(b); err == nil && (n < 0 || n > len(b)) {
				t.Fatalf("size of %s is %d, but there are %d bytes", s, n, len(b))
			}
		})
		if len(b) == 0 {
			continue
		}
		tops = append(tops, registry.Dynamic{Hash: put(b), Schema: s.Reference()})
	}
	var r = &registry.Root{Refs: tops, Reg: reg.Reference()}
	var size = 4096
	for _, b := range p.m {
		size += len(b)
	}
	var visits int
	guard(t, "Walk", size, func() {
		r.Walk(p, func(h cipher.SHA256, depth int) (bool, error) {
			if visits++; visits > 3000 {
				return false, registry.ErrStopIteration
			}
			return true, nil
		})
	})
	if visits < 1000 {
		guard(t, "Tree", size*100, func() { r.Tree(p) })
	}
	var s = &splitter{p: p, reg: reg, rcs: map[cipher.SHA256]int{}, seen: map[cipher.SHA256]bool{}, mode: 0}
	if visits < 1000 {
		guard(t, "Split", size*10, func() {
			for i := range r.Refs {
				r.Refs[i].Split(s)
			}
		})
	}
	if p.bad != nil {
		t.Fatal(p.bad)
	}
	if visits > 3 {
		c.Class("walked")
	}
}

var sizes = map[reflect.Kind]int{
	reflect.Bool: 1, reflect.Int8: 1, reflect.Uint8: 1, reflect.Int16: 2, reflect.Uint16: 2, reflect.Int32: 4, reflect.Uint32: 4,
	reflect.Float32: 4, reflect.Int64: 8, reflect.Uint64: 8, reflect.Float64: 8,
}

// node of a references tree, that may lie
func drawRefsNode(t *rapid.T, key func() cipher.SHA256, root bool) (b []byte) {
	var small = func(name string) uint32 {
		return rapid.OneOf(rapid.Uint32Range(0, 4), rapid.SampledFrom([]uint32{2, 2, 3, 31, 32, 33, 1 << 20, 1 << 31, 1<<32 - 1})).Draw(t, name)
	}
	if root {
		b = binary.LittleEndian.AppendUint32(b, small("depth"))
		b = binary.LittleEndian.AppendUint32(b, small("degree"))
	}
	var n = rapid.IntRange(0, 4).Draw(t, "elements")
	var ln = uint32(n)
	if rapid.IntRange(0, 2).Draw(t, "lie") == 0 {
		ln = small("length")
	}
	b = binary.LittleEndian.AppendUint32(b, ln)
	b = binary.LittleEndian.AppendUint32(b, uint32(n))
	for i := 0; i < n; i++ {
		var h = key()
		b = append(b, h[:]...)
	}
	if rapid.IntRange(0, 7).Draw(t, "mutate node") == 0 {
		b = mutate(t, b)
	}
	return
}

// a tree of nodes that may lie is read
func TestR02Refs(t *testing.T) {
	pbt.Check(t, "R02 references", 20000, 300000, func(t *rapid.T, c *pbt.Case) {
		var p = newPack(nil, registry.Degree(rapid.SampledFrom([]int{2, 3, 16}).Draw(t, "degree")), registry.Flags(rapid.IntRange(0, 7).Draw(t, "flags")))
		p.reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("T", struct{ A uint8 }{}) })
		var sch, _ = p.reg.SchemaByName("T")
		var size int
		var hash cipher.SHA256
		// a valid tree with a broken node, or generated nodes
		if rapid.Bool().Draw(t, "valid tree") {
			var g = gen.NewGraph(nil)
			var list []cipher.SHA256
			for n := rapid.IntRange(1, 20).Draw(t, "elements"); n > 0; n-- {
				list = append(list, cipher.SHA256(sha256.Sum256([]byte{byte(n % 17)})))
			}
			hash = g.Tree(list, rapid.IntRange(2, 4).Draw(t, "degree of the tree"))
			p.m = g.Store()
			var keys []cipher.SHA256
			for h := range p.m {
				keys = append(keys, h)
			}
			sort.Slice(keys, func(i, j int) bool { return string(keys[i][:]) < string(keys[j][:]) })
			for n := rapid.IntRange(0, 2).Draw(t, "broken nodes"); n > 0; n-- {
				var h = rapid.SampledFrom(keys).Draw(t, "broken")
				if rapid.IntRange(0, 3).Draw(t, "how") == 0 {
					p.m[h] = p.m[rapid.SampledFrom(keys).Draw(t, "other")]
				} else {
					p.m[h] = mutate(t, p.m[h])
				}
			}
			c.Class("broken valid tree")
		} else {
			var keys []cipher.SHA256
			var key = func() (h cipher.SHA256) {
				if len(keys) == 0 || rapid.IntRange(0, 5).Draw(t, "blank") == 0 {
					return
				}
				return keys[len(keys)-1-rapid.IntRange(0, len(keys)-1).Draw(t, "key")]
			}
			for n := rapid.IntRange(1, 5).Draw(t, "nodes"); n > 0; n-- {
				var b = drawRefsNode(t, key, n == 1)
				var h = cipher.SHA256(sha256.Sum256(b))
				p.m[h] = b
				keys = append(keys, h)
			}
			hash = keys[len(keys)-1]
			c.Class("generated nodes")
		}
		for _, b := range p.m {
			size += len(b)
		}
		c.Note("flags %d, %d nodes, %d bytes, %s", p.flags, len(p.m), size, hash.Hex()[:8])
		c.NonTrivial()

		var visits int
		guard(t, "Walk", size, func() {
			(&registry.Refs{Hash: hash}).Walk(p, sch, func(cipher.SHA256, int) (bool, error) {
				if visits++; visits > 20000 {
					return false, registry.ErrStopIteration
				}
				return true, nil
			})
		})
		var s = &splitter{p: p, reg: p.reg, rcs: map[cipher.SHA256]int{}, seen: map[cipher.SHA256]bool{}}
		guard(t, "Split", size, func() { (&registry.Refs{Hash: hash}).Split(s, sch) })

		// reading
		var r = &registry.Refs{Hash: hash}
		for n := rapid.IntRange(1, 4).Draw(t, "reads"); n > 0; n-- {
			var err error
			switch rapid.IntRange(0, 6).Draw(t, "read") {
			case 0:
				guard(t, "Len", size, func() { _, err = r.Len(p) })
			case 1:
				var i = rapid.IntRange(-1, 20).Draw(t, "i")
				guard(t, "HashByIndex", size, func() { _, err = r.HashByIndex(p, i) })
			case 2:
				var h = cipher.SHA256(sha256.Sum256([]byte{byte(rapid.IntRange(0, 17).Draw(t, "hash"))}))
				guard(t, "IndexOfHash", size, func() { _, err = r.IndexOfHash(p, h) })
				guard(t, "IndicesByHash", size, func() { _, err = r.IndicesByHash(p, h) })
			case 3:
				var k int
				guard(t, "Ascend", size, func() {
					err = r.Ascend(p, func(int, cipher.SHA256) error {
						if k++; k > 5000 {
							return registry.ErrStopIteration
						}
						return nil
					})
				})
			case 4:
				var k int
				guard(t, "Descend", size, func() {
					err = r.Descend(p, func(int, cipher.SHA256) error {
						if k++; k > 5000 {
							return registry.ErrStopIteration
						}
						return nil
					})
				})
			case 5:
				guard(t, "Init", size, func() { err = r.Init(p) })
			case 6:
				guard(t, "Tree", size*10, func() { _, err = r.Tree(p, true) })
			}
			if err != nil {
				c.Class("error")
				r = &registry.Refs{Hash: hash}
			} else {
				c.Class("no error")
			}
		}
	})
}

func TestR02Root(t *testing.T) {
	pbt.Check(t, "R02 root", 8000, 100000, func(t *rapid.T, c *pbt.Case) {
		var r = new(registry.Root)
		for n := rapid.IntRange(0, 3).Draw(t, "refs"); n > 0; n-- {
			r.Refs = append(r.Refs, registry.Dynamic{Hash: cipher.SHA256{byte(n)}, Schema: registry.SchemaRef{byte(n)}})
		}
		r.Descriptor = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "descriptor")
		r.Seq = rapid.Uint64().Draw(t, "seq")
		r.Nonce = rapid.Uint64().Draw(t, "nonce")
		r.Time = rapid.Int64().Draw(t, "time")
		r.Pub[3], r.Prev[4], r.Reg[5] = 7, 8, 9
		var b = r.Encode()
		var x, err = registry.DecodeRoot(b)
		if err != nil {
			t.Fatalf("DecodeRoot: %v", err)
		}
		if len(r.Descriptor) == 0 {
			r.Descriptor, x.Descriptor = nil, nil
		}
		if len(r.Refs) == 0 {
			r.Refs, x.Refs = nil, nil
		}
		if !reflect.DeepEqual(x, r) {
			t.Fatalf("decoded root is %v, want %v", x, r)
		}
		for i := 0; i < len(b); i++ {
			if _, err = registry.DecodeRoot(b[:i:i]); err == nil {
				t.Fatalf("root cut to %d of %d bytes is decoded", i, len(b))
			}
		}
		var m = mutate(t, b)
		c.Note("%x", m)
		c.NonTrivial()
		guard(t, "DecodeRoot", len(m), func() {
			x, err = registry.DecodeRoot(m)
			if (x == nil) != (err != nil) {
				t.Fatalf("DecodeRoot returns %v and %v", x, err)
			}
			if err == nil {
				_ = x.String()
				_ = x.Short()
			}
		})

		var dr = &data.Root{Create: 1, Access: 2, Time: 3, Seq: r.Seq, Prev: cipher.SHA256{1}, Hash: cipher.SHA256{2}, Sig: cipher.Sig{3}}
		var db = dr.Encode()
		var d2 data.Root
		if err = d2.Decode(db); err != nil || d2 != *dr {
			t.Fatalf("data.Root: %v, %v", d2, err)
		}
		m = mutate(t, db)
		guard(t, "data.Root.Decode", len(m), func() {
			if err = new(data.Root).Decode(m); err == nil && len(m) < len(db) {
				t.Fatal("short record is decoded")
			}
		})
	})
}
