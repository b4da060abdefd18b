package treg

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

// decoded gives the registry as it is seen by another process
func decoded(t *rapid.T, r *registry.Registry) *registry.Registry {
	if rapid.Bool().Draw(t, "decoded registry") {
		var d, err = registry.DecodeRegistry(r.Encode())
		if err != nil {
			t.Fatalf("DecodeRegistry: %v", err)
		}
		return d
	}
	return r
}

func drawGraph(t *rapid.T, w *gen.World, max int) (g *gen.Graph) {
	g = gen.NewGraph(w)
	var n = rapid.IntRange(1, max).Draw(t, "objects")
	for i := 0; i < n; i++ {
		g.DrawObject(t)
	}
	return
}

func TestR03(t *testing.T) {
	pbt.Check(t, "R03", 10000, 100000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{})
		var reg = decoded(t, w.Reg)
		var typ = rapid.IntRange(0, len(w.Types)-1).Draw(t, "type")
		var g = gen.NewGraph(w)
		if rapid.Bool().Draw(t, "refs") {
			g = drawGraph(t, w, 3)
		}
		var id = ""
		var v = w.DrawValue(t, w.Types[typ], g, id)
		c.Note("%s: type %d, %d bytes", w, typ, len(v.Enc))
		var s, err = reg.SchemaByName(w.Types[typ].Name)
		if err != nil {
			t.Fatal(err)
		}
		var junk = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "junk")
		var p = append(append([]byte{}, v.Enc...), junk...)
		measure(t, "value", s, v.D, p, len(v.Enc))

		// fields
		var pos, k int
		for _, f := range v.D.Fields {
			if f.Skip {
				continue
			}
			var sf = s.Fields()[k]
			if v.Offsets[k] != pos {
				t.Fatalf("field %s is found at %d, it is at %d", sf, pos, v.Offsets[k])
			}
			var end = len(v.Enc)
			if k+1 < len(v.Offsets) {
				end = v.Offsets[k+1]
			}
			measure(t, "field "+sf.String(), sf.Schema(), f.D, p[pos:], end-pos)
			n, _ := sf.Schema().Size(p[pos:])
			pos += n
			k++
		}
		if len(v.Enc) > 8 {
			c.NonTrivial()
		}
	})
}

func measure(t *rapid.T, what string, s registry.Schema, d *gen.Desc, p []byte, want int) {
	var n, err = s.Size(p)
	if err != nil || n != want {
		t.Fatalf("size of %s %s is %d, %v, want %d", what, d, n, err, want)
	}
	for i := 0; i < want; i++ {
		// short, with nothing behind it
		var cut = append(make([]byte, 0, i), p[:i]...)
		if n, err = s.Size(cut); err == nil {
			t.Fatalf("size of %s %s cut to %d of %d bytes is %d", what, d, i, want, n)
		}
	}
}

// equalValues are values that are encoded the same way
func equalValues(w *gen.World, d *gen.Desc, a, b reflect.Value) error {
	if d.IsRef() {
		switch d.Ref {
		case registry.ReferenceTypeSlice:
			if a.Field(0).Interface() != b.Field(0).Interface() {
				return fmt.Errorf("hashes of Refs differ")
			}
		default:
			if a.Interface() != b.Interface() {
				return fmt.Errorf("references differ: %v, %v", a.Interface(), b.Interface())
			}
		}
		return nil
	}
	switch d.Kind {
	case reflect.Struct:
		for i, f := range d.Fields {
			if f.Skip {
				if !b.Field(i).IsZero() {
					return fmt.Errorf("a field that is not encoded is set")
				}
				continue
			}
			if err := equalValues(w, f.D, a.Field(i), b.Field(i)); err != nil {
				return fmt.Errorf("%s: %v", f.Name, err)
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Errorf("lengths differ: %d, %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := equalValues(w, d.Elem, a.Index(i), b.Index(i)); err != nil {
				return fmt.Errorf("[%d]: %v", i, err)
			}
		}
	case reflect.Float32, reflect.Float64:
		if x, y := a.Float(), b.Float(); x != y && (x == x || y == y) {
			return fmt.Errorf("%v and %v", x, y)
		}
	default:
		if a.Interface() != b.Interface() {
			return fmt.Errorf("%v and %v", a.Interface(), b.Interface())
		}
	}
	return nil
}

func TestR07(t *testing.T) {
	pbt.Check(t, "R07", 8000, 80000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{})
		var g = drawGraph(t, w, 4)
		c.Note("%s", w)
		var reg = decoded(t, w.Reg)
		var p = newPack(reg, registry.Degree(rapid.SampledFrom([]int{2, 3, 16}).Draw(t, "degree")), 0)
		var id = ""
		var typ = rapid.IntRange(0, len(w.Types)-1).Draw(t, "type")
		var v = w.DrawValue(t, w.Types[typ], g, id)
		var obj = v.V.Interface()
		if rapid.Bool().Draw(t, "pointer") {
			var x = reflect.New(v.D.T)
			x.Elem().Set(v.V)
			obj = x.Interface()
		}
		var check = func(what string, hash cipher.SHA256, v *gen.Value, get func(o interface{}) error) {
			t.Helper()
			if hash != v.Hash() {
				t.Fatalf("%s: hash is %s, want %s", what, hash.Hex(), v.Hash().Hex())
			}
			if !bytes.Equal(p.m[hash], v.Enc) {
				t.Fatalf("%s: the value is %x, want %x", what, p.m[hash], v.Enc)
			}
			var r = reflect.New(v.D.T)
			if err := get(r.Interface()); err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			if err := equalValues(w, v.D, v.V, r.Elem()); err != nil {
				t.Fatalf("%s: got another value: %v", what, err)
			}
		}

		// Ref
		var ref registry.Ref
		blankRef(t, p, v, &ref)
		if err := ref.SetValue(p, obj); err != nil {
			t.Fatalf("Ref.SetValue: %v", err)
		}
		check("Ref", ref.Hash, v, func(o interface{}) error { return ref.Value(p, o) })
		if ref.IsBlank() || ref.String() != ref.Hash.Hex() || !strings.HasPrefix(ref.Hash.Hex(), ref.Short()) {
			t.Fatalf("Ref: %v %s %s", ref.IsBlank(), ref.String(), ref.Short())
		}
		var second = registry.Ref{Hash: cipher.SHA256{9}}
		if err := second.Value(p, reflect.New(v.D.T).Interface()); err != errMissing {
			t.Fatalf("value of missing object: %v", err)
		}
		if rapid.Bool().Draw(t, "set nil") {
			if err := ref.SetValue(p, reflect.Zero(reflect.PtrTo(v.D.T)).Interface()); err != nil {
				t.Fatal(err)
			}
		} else {
			ref.Clear()
		}
		blankRef(t, p, v, &ref)

		// Dynamic
		var dr registry.Dynamic
		blankDynamic(t, p, v, &dr)
		dr.Schema = w.SchemaRef(typ)
		if err := dr.SetValue(p, obj); err != nil {
			t.Fatalf("Dynamic.SetValue: %v", err)
		}
		if dr.Schema != w.SchemaRef(typ) || dr.IsBlank() || !dr.IsValid() {
			t.Fatalf("Dynamic: schema %s, blank %v, valid %v", dr.Schema.Short(), dr.IsBlank(), dr.IsValid())
		}
		check("Dynamic", dr.Hash, v, func(o interface{}) error { return dr.Value(p, o) })
		var inv = registry.Dynamic{Hash: dr.Hash}
		if inv.IsValid() || inv.Value(p, reflect.New(v.D.T).Interface()) != registry.ErrInvalidDynamicReference {
			t.Fatal("a dynamic reference without schema is used")
		}
		if rapid.Bool().Draw(t, "set nil") {
			if err := dr.SetValue(p, nil); err != nil {
				t.Fatal(err)
			}
		} else {
			dr.Clear()
		}
		blankDynamic(t, p, v, &dr)

		// Refs
		var vs []*gen.Value
		var objs []interface{}
		var n = rapid.IntRange(0, 7).Draw(t, "values")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
				vs, objs = append(vs, nil), append(objs, reflect.Zero(reflect.PtrTo(v.D.T)).Interface())
				continue
			}
			var x = w.DrawValue(t, w.Types[typ], g, id)
			vs, objs = append(vs, x), append(objs, x.V.Interface())
		}
		var rs registry.Refs
		var cut = rapid.IntRange(0, n).Draw(t, "cut")
		for _, part := range [][]interface{}{objs[:cut], objs[cut:]} {
			if err := rs.AppendValues(p, part...); err != nil {
				t.Fatalf("AppendValues: %v", err)
			}
		}
		if n > 0 && rapid.Bool().Draw(t, "set one") {
			var i = rapid.IntRange(0, n-1).Draw(t, "index")
			if err := rs.SetValueByIndex(p, i, obj); err != nil {
				t.Fatalf("SetValueByIndex: %v", err)
			}
			vs[i] = v
		}
		if ln, err := rs.Len(p); err != nil || ln != n {
			t.Fatalf("Len is %d, %v", ln, err)
		}
		if n > 0 {
			if err := rs.Rebuild(p); err != nil {
				t.Fatal(err)
			}
			rs = registry.Refs{Hash: rs.Hash}
		}
		var stored, _, terr = readTree(p.m, rs.Hash, nil)
		if terr != nil || len(stored) != n {
			t.Fatalf("the stored tree: %d, %v", len(stored), terr)
		}
		for i, x := range vs {
			if x == nil {
				if stored[i] != (cipher.SHA256{}) {
					t.Fatalf("element %d is not blank", i)
				}
				if _, err := rs.ValueByIndex(p, i, reflect.New(v.D.T).Interface()); err != registry.ErrRefsElementIsNil {
					t.Fatalf("blank element %d: %v", i, err)
				}
				continue
			}
			var got cipher.SHA256
			check("ValueByIndex", stored[i], x, func(o interface{}) (err error) {
				got, err = rs.ValueByIndex(p, i, o)
				return
			})
			if got != stored[i] {
				t.Fatalf("ValueByIndex returns hash %s", got.Hex())
			}
			check("ValueByHash", stored[i], x, func(o interface{}) (err error) {
				return rs.ValueByHash(p, stored[i], o)
			})
		}
		if _, err := rs.ValueByIndex(p, n, reflect.New(v.D.T).Interface()); err != registry.ErrIndexOutOfRange {
			t.Fatalf("out of range: %v", err)
		}
		if len(v.Enc) > 8 {
			c.NonTrivial()
		}
	})
}

func blankRef(t *rapid.T, p *pack, v *gen.Value, r *registry.Ref) {
	if !r.IsBlank() || *r != (registry.Ref{}) {
		t.Fatal("Ref is not blank")
	}
	if err := r.Value(p, reflect.New(v.D.T).Interface()); err != registry.ErrReferenceRepresentsNil {
		t.Fatalf("value of blank Ref: %v", err)
	}
}

func blankDynamic(t *rapid.T, p *pack, v *gen.Value, d *registry.Dynamic) {
	if !d.IsBlank() || !d.IsValid() || *d != (registry.Dynamic{}) {
		t.Fatal("Dynamic is not blank")
	}
	if err := d.Value(p, reflect.New(v.D.T).Interface()); err != registry.ErrReferenceRepresentsNil {
		t.Fatalf("value of blank Dynamic: %v", err)
	}
}

// printed tree of a Root shows every object as many times as it is there
func TestR07Tree(t *testing.T) {
	pbt.Check(t, "R07 tree", 8000, 80000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{MaxTypes: 4})
		var g = drawGraph(t, w, 8)
		var r, cs = drawRoot(t, w, g)
		c.Note("%s; %d objects", w, len(g.List))
		var p = newPack(decoded(t, w.Reg), 16, 0)
		p.m = g.Store()
		p.readOnly = true

		var want = map[string]int{}
		var n int
		var wk = &gen.Walker{G: g, Func: func(v gen.Visit) (bool, error) {
			if o := g.All[v.Hash]; o != nil && v.Depth == 0 {
				for _, tok := range o.Value.Tokens {
					want[tok]++
				}
			}
			if n++; n > 3000 {
				return false, registry.ErrStopIteration
			}
			return true, nil
		}}
		// the model of the walk does not enter objects without references
		for _, ch := range cs {
			if err := wk.WalkChild(ch); err != nil {
				t.Skip("too big")
			}
		}
		var out, err = r.Tree(p)
		if err != nil {
			t.Fatalf("Tree: %v", err)
		}
		if strings.Contains(out, "err") {
			t.Fatalf("the tree has an error:\n%s", out)
		}
		for tok, k := range want {
			if got := strings.Count(out, tok); got != k {
				t.Fatalf("the tree shows %q %d times instead of %d:\n%s", tok, got, k, out)
			}
		}
		for _, o := range g.List {
			for _, tok := range o.Value.Tokens {
				if want[tok] == 0 && strings.Contains(out, tok) {
					t.Fatalf("the tree shows %q", tok)
				}
			}
		}
		if len(want) > 2 {
			c.NonTrivial()
		}
		if p.bad != nil {
			t.Fatal(p.bad)
		}
	})
}

// drawRoot draws main branches of a Root
func drawRoot(t *rapid.T, w *gen.World, g *gen.Graph) (r *registry.Root, cs []gen.Child) {
	r = new(registry.Root)
	r.Reg = w.Reg.Reference()
	var n = rapid.IntRange(0, 4).Draw(t, "branches")
	for i := 0; i < n; i++ {
		var c = g.DrawRef(t, &gen.Desc{Ref: registry.ReferenceTypeDynamic})
		if i == 0 && len(g.List) > 0 { // the last object has the most of others
			var o = g.List[len(g.List)-1]
			c.Hash, c.Type, c.Schema = o.Hash, o.Type, true
		}
		var dr = registry.Dynamic{Hash: c.Hash}
		if c.Schema {
			dr.Schema = w.SchemaRef(c.Type)
		}
		r.Refs = append(r.Refs, dr)
		cs = append(cs, c)
	}
	return
}
