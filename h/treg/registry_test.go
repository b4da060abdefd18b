package treg

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

// sameSchema compares schema with description of the type
func sameSchema(w *gen.World, reg *registry.Registry, s registry.Schema, d *gen.Desc) (err error) {
	if s == nil {
		return fmt.Errorf("%s: there is no schema", d)
	}
	var want = func(what string, got, want interface{}) {
		if err == nil && !reflect.DeepEqual(got, want) {
			err = fmt.Errorf("%s: %s is %v, want %v", d, what, got, want)
		}
	}
	want("IsReference", s.IsReference(), d.IsRef())
	want("ReferenceType", s.ReferenceType(), d.Ref)
	want("HasReferences", s.HasReferences(), d.HasRefs())
	want("Kind", s.Kind(), d.Kind)
	want("IsRegistered", s.IsRegistered(), d.Reg >= 0)
	if s.Reference() != registry.SchemaRef(sha256.Sum256(s.Encode())) {
		return fmt.Errorf("%s: the reference is not hash of the schema", d)
	}
	if err != nil {
		return
	}
	if d.IsRef() {
		if d.Ref == registry.ReferenceTypeDynamic {
			want("Elem", s.Elem() == nil, true)
			want("String", s.String(), "*(dynamic)")
			return
		}
		var el registry.Schema
		if el, err = reg.SchemaByName(w.Types[d.To].Name); err != nil {
			return
		}
		if s.Elem() != el {
			return fmt.Errorf("%s: element is another schema than the registered one", d)
		}
		if d.Ref == registry.ReferenceTypeSingle {
			want("String", s.String(), "*"+w.Types[d.To].Name)
		} else {
			want("String", s.String(), "[]*"+w.Types[d.To].Name)
		}
		return
	}
	want("Name", s.Name(), d.Name)
	want("RawName", string(s.RawName()), d.Name)
	want("Len", s.Len(), d.Len)
	if err != nil {
		return
	}
	if d.Reg >= 0 {
		var r registry.Schema
		if r, err = reg.SchemaByName(d.Name); err != nil {
			return
		}
		if r != s {
			return fmt.Errorf("%s: it is another schema than the registered one", d)
		}
	}
	switch d.Kind {
	case reflect.Array, reflect.Slice:
		return sameSchema(w, reg, s.Elem(), d.Elem)
	case reflect.Struct:
		var fs []gen.Field
		for _, f := range d.Fields {
			if !f.Skip {
				fs = append(fs, f)
			}
		}
		if len(fs) != len(s.Fields()) {
			return fmt.Errorf("%s has %d fields, want %d", d, len(s.Fields()), len(fs))
		}
		for i, sf := range s.Fields() {
			want("name of field", sf.Name(), fs[i].Name)
			want("name of field", string(sf.RawName()), fs[i].Name)
			want("tag", string(sf.Tag()), fs[i].Tag)
			want("tag", string(sf.RawTag()), fs[i].Tag)
			want("kind", sf.Kind(), fs[i].D.Kind)
			if err == nil {
				err = sameSchema(w, reg, sf.Schema(), fs[i].D)
			}
			if err != nil {
				return
			}
		}
	default:
		want("Elem", s.Elem() == nil, true)
		want("Fields", len(s.Fields()), 0)
	}
	return
}

func checkRegistry(w *gen.World, r *registry.Registry) (err error) {
	if r.Reference() != registry.RegistryRef(sha256.Sum256(r.Encode())) {
		return fmt.Errorf("the reference of the registry is not hash of the registry")
	}
	var refs = map[registry.SchemaRef]string{}
	for _, d := range w.Types {
		var s registry.Schema
		if s, err = r.SchemaByName(d.Name); err != nil {
			return
		}
		if err = sameSchema(w, r, s, d); err != nil {
			return
		}
		var b registry.Schema
		if b, err = r.SchemaByReference(s.Reference()); err != nil {
			return
		}
		if b != s {
			return fmt.Errorf("%q: by reference %q", d.Name, b.Name())
		}
		if other, ok := refs[s.Reference()]; ok {
			return fmt.Errorf("%q and %q have the same reference", d.Name, other)
		}
		refs[s.Reference()] = d.Name
	}
	if s, err := r.SchemaByName("no such name"); err == nil || s != nil {
		return fmt.Errorf("there is a schema by wrong name: %v, %v", s, err)
	}
	if s, err := r.SchemaByReference(registry.SchemaRef{1, 2, 3}); err == nil || s != nil {
		return fmt.Errorf("there is a schema by wrong reference: %v, %v", s, err)
	}
	return nil
}

func TestR01(t *testing.T) {
	pbt.Check(t, "R01", 8000, 80000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{})
		c.Note("%s", w)
		var r = w.Reg
		if err := checkRegistry(w, r); err != nil {
			t.Fatalf("registry: %v", err)
		}

		// types
		var ts = r.Types()
		if len(ts.Direct) != len(w.Types) || len(ts.Inverse) != len(w.Types) {
			t.Fatalf("Types: %d, %d of %d", len(ts.Direct), len(ts.Inverse), len(w.Types))
		}
		for _, d := range w.Types {
			if ts.Direct[d.Name] != d.T || ts.Inverse[d.T] != d.Name {
				t.Fatalf("Types: wrong for %q", d.Name)
			}
		}

		// order of registration
		var order = rapid.Permutation(seq(len(w.Types))).Draw(t, "order")
		var p = w.Build(order)
		if p.Reference() != r.Reference() || !bytes.Equal(p.Encode(), r.Encode()) {
			t.Fatalf("reference depends on order of registration %v", order)
		}

		// decode, many times
		var b = r.Encode()
		for i := 0; i < 2; i++ {
			var d, err = registry.DecodeRegistry(append([]byte(nil), b...))
			if err != nil {
				t.Fatalf("DecodeRegistry: %v", err)
			}
			if d.Reference() != r.Reference() {
				t.Fatal("decoded registry has another reference")
			}
			if err = checkRegistry(w, d); err != nil {
				t.Fatalf("decoded registry: %v", err)
			}
			for _, x := range w.Types {
				var s, _ = d.SchemaByName(x.Name)
				if s.Reference() != w.SchemaRef(x.Reg) {
					t.Fatalf("%q has another reference after decoding", x.Name)
				}
			}
			if ts := d.Types(); len(ts.Direct) != 0 || len(ts.Inverse) != 0 {
				t.Fatal("decoded registry has types")
			}
			if !bytes.Equal(d.Encode(), b) {
				t.Fatal("decoded registry is encoded another way")
			}
		}

		// another types have another reference
		var what = change(t, w)
		var a *registry.Registry
		if msg := panics(func() { a = w.Build(nil) }); msg != "" {
			t.Fatalf("%s: %s", what, msg)
		}
		if a.Reference() == r.Reference() {
			t.Fatalf("%s: the reference is the same", what)
		}
		if err := checkRegistry(w, a); err != nil {
			t.Fatalf("after %s: %v", what, err)
		}
		if len(w.Types) > 1 || len(w.Types[0].Fields) > 1 {
			c.NonTrivial()
		}
		if what != "" {
			c.Class(what)
		}
	})
}

func seq(n int) (s []int) {
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	return
}

func panics(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return
}

// change one of types a bit
func change(t *rapid.T, w *gen.World) string {
	var d = w.Types[len(w.Types)-1] // is not inside of others
	var fs []reflect.StructField
	for i := 0; i < d.T.NumField(); i++ {
		fs = append(fs, d.T.Field(i))
	}
	var k = rapid.IntRange(0, len(fs)-1).Draw(t, "field to change")
	var what = rapid.SampledFrom([]string{"rename field", "add field", "remove field",
		"change tag", "change type", "change length", "swap", "rename type", "turn ref to refs"}).Draw(t, "change")
	var u16 = reflect.TypeOf(uint16(0))
	switch {
	case what == "swap" && len(fs) > 1 && !d.Fields[0].Skip && !d.Fields[1].Skip:
		fs[0], fs[1] = fs[1], fs[0]
		d.Fields[0], d.Fields[1] = d.Fields[1], d.Fields[0]
	case what == "remove field" && k > 0 && !d.Fields[k].Skip:
		fs = append(fs[:k:k], fs[k+1:]...)
		d.Fields = append(d.Fields[:k:k], d.Fields[k+1:]...)
	case what == "rename field" && !d.Fields[k].Skip:
		fs[k].Name += "X"
		d.Fields[k].Name += "X"
	case what == "change tag" && !d.Fields[k].Skip:
		fs[k].Tag += " "
		d.Fields[k].Tag += " "
	case what == "change type" && !d.Fields[k].Skip && d.Fields[k].D.T != u16:
		fs[k].Type = u16
		d.Fields[k].D = gen.FromType(u16)
	case what == "change length":
		var n = rapid.IntRange(0, 300).Draw(t, "len")
		var to = reflect.TypeOf([5]uint16{})
		if d.Fields[k].Skip || d.Fields[k].D.T == to {
			return change(t, w)
		}
		_ = n
		fs[k].Type = to
		d.Fields[k].D = gen.FromType(to)
		d.Fields[k].D.Name = ""
		d.Fields[k].D.Elem = gen.FromType(u16)
	case what == "rename type":
		// references to it would be missing
		for _, x := range w.Types {
			if refersTo(x, d.Reg) {
				return change(t, w)
			}
		}
		d.Name += "X"
		return what
	case what == "turn ref to refs" && !d.Fields[k].Skip && d.Fields[k].D.Ref == registry.ReferenceTypeSingle:
		var n = *d.Fields[k].D
		n.Ref, n.T = registry.ReferenceTypeSlice, reflect.TypeOf(registry.Refs{})
		d.Fields[k].D = &n
		fs[k].Type = n.T
	default:
		what = "add field"
		fs = append(fs, reflect.StructField{Name: "Added", Type: u16})
		d.Fields = append(d.Fields, gen.Field{Name: "Added", D: gen.FromType(u16)})
	}
	d.T = reflect.StructOf(fs)
	return what
}

func refersTo(d *gen.Desc, i int) bool {
	if d.IsRef() {
		return d.Ref != registry.ReferenceTypeDynamic && d.To == i
	}
	if d.Elem != nil && refersTo(d.Elem, i) {
		return true
	}
	for _, f := range d.Fields {
		if !f.Skip && refersTo(f.D, i) {
			return true
		}
	}
	return false
}

type plain struct{ A uint16 }
type withPlain struct{ P plain }
type withRefSlice struct{ R []registry.Ref }
type withRefsArray struct{ R [2]registry.Refs }
type withMap struct{ M map[string]int }
type withInt struct{ I int }
type noTag struct{ R registry.Ref }
type wrongTag struct {
	R registry.Ref `skyobject:"schema="`
}
type missingTag struct {
	R registry.Refs `skyobject:"schema=nobody"`
}

// what can not be registered
func TestR01Reject(t *testing.T) {
	pbt.Check(t, "R01 reject", 600, 6000, func(t *rapid.T, c *pbt.Case) {
		var bad = rapid.SampledFrom([]interface{}{
			withPlain{}, withRefSlice{}, withRefsArray{}, withMap{}, withInt{}, noTag{}, wrongTag{}, missingTag{},
			registry.Ref{}, registry.Refs{}, registry.Dynamic{}, 5, "s", []byte{1}, map[int]int{},
		}).Draw(t, "bad")
		c.Note("%T", bad)
		c.NonTrivial()
		var first = rapid.Bool().Draw(t, "first")
		if panics(func() {
			registry.NewRegistry(func(r *registry.Reg) {
				if first {
					r.Register("good", struct{ A string }{})
				}
				r.Register("bad", bad)
				if !first {
					r.Register("good", struct{ A string }{})
				}
			})
		}) == "" {
			t.Fatalf("%T is registered", bad)
		}
		if panics(func() {
			registry.NewRegistry(func(r *registry.Reg) {
				r.Register("one", struct{ A string }{})
				r.Register(rapid.SampledFrom([]string{"one", ""}).Draw(t, "name"), struct{ B string }{})
			})
		}) == "" {
			t.Fatal("wrong name is registered")
		}
	})
}

// tags of references
func TestR01Tags(t *testing.T) {
	pbt.Check(t, "R01 tags", 4000, 40000, func(t *rapid.T, c *pbt.Case) {
		var parts = rapid.SliceOfN(rapid.SampledFrom([]string{"schema=a", "schema=", "schema=a=b", "x", "", "schema", "schema=Ж.x", "xschema=z"}), 0, 4).Draw(t, "parts")
		var val string
		for i, p := range parts {
			if i > 0 {
				val += ","
			}
			val += p
		}
		var tag = fmt.Sprintf("json:\"a\" skyobject:%q x:\"y\"", val)
		var want, ok = "", false
		for _, p := range parts {
			if len(p) >= 7 && p[:7] == "schema=" {
				if p == "schema=a" || p == "schema=Ж.x" {
					want, ok = p[7:], true
				}
				break
			}
		}
		c.Note("%s", tag)
		if ok {
			c.NonTrivial()
		}
		got, err := registry.TagSchemaName(reflect.StructTag(tag))
		if ok != (err == nil) || got != want {
			t.Fatalf("TagSchemaName of %s is %q, %v", tag, got, err)
		}
	})
}

var _ = sort.Strings
var _ cipher.SHA256
