// Package gen generates types, registries, values and graphs of objects
package gen

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"
)

// named types that are not structures
type (
	NBool  bool
	NStr   string
	NU32   uint32
	NI64   int64
	NBytes []byte
	NArr   [2]int16
	NStrs  []string
)

var named = []interface{}{NBool(false), NStr(""), NU32(0), NI64(0), NBytes(nil), NArr{}, NStrs(nil), cipher.PubKey{}, cipher.SHA256{}}

// Desc describes a type
type Desc struct {
	Kind   reflect.Kind
	Name   string // of registered struct or of a named type
	Reg    int    // index of registered type or -1
	Len    int
	Elem   *Desc
	Fields []Field
	Ref    registry.ReferenceType
	To     int // type Ref and Refs point to
	T      reflect.Type
}

// Field of a struct
type Field struct {
	Name string
	Tag  string
	Skip bool // is not encoded
	D    *Desc
}

// World is a set of registered types
type World struct {
	Types []*Desc
	Reg   *registry.Registry

	names int
}

var (
	typeRef     = reflect.TypeOf(registry.Ref{})
	typeRefs    = reflect.TypeOf(registry.Refs{})
	typeDynamic = reflect.TypeOf(registry.Dynamic{})
)

var basic = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

// FromType describes a type without registered structs and references
func FromType(t reflect.Type) *Desc {
	var d = &Desc{Kind: t.Kind(), T: t, Reg: -1}
	if t.Name() != t.Kind().String() {
		d.Name = t.Name()
	} else {
		d.Name = t.Kind().String() // basic types are named too
	}
	switch t.Kind() {
	case reflect.Slice:
		d.Elem = FromType(t.Elem())
	case reflect.Array:
		d.Len = t.Len()
		d.Elem = FromType(t.Elem())
	case reflect.Struct:
		panic("gen: a struct")
	}
	return d
}

// IsRef is for Ref, Refs and Dynamic
func (d *Desc) IsRef() bool { return d.Ref != registry.ReferenceTypeNone }

// HasRefs on any level
func (d *Desc) HasRefs() bool {
	if d.IsRef() {
		return true
	}
	if d.Elem != nil {
		return d.Elem.HasRefs()
	}
	for _, f := range d.Fields {
		if !f.Skip && f.D.HasRefs() {
			return true
		}
	}
	return false
}

// ZeroSize of encoded value?
func (d *Desc) ZeroSize() bool {
	switch {
	case d.IsRef():
		return false
	case d.Kind == reflect.Array:
		return d.Len == 0 || d.Elem.ZeroSize()
	case d.Kind == reflect.Struct:
		for _, f := range d.Fields {
			if !f.Skip && !f.D.ZeroSize() {
				return false
			}
		}
		return true
	}
	return false
}

// String of the type
func (d *Desc) String() string {
	switch d.Ref {
	case registry.ReferenceTypeSingle:
		return fmt.Sprintf("Ref#%d", d.To)
	case registry.ReferenceTypeSlice:
		return fmt.Sprintf("Refs#%d", d.To)
	case registry.ReferenceTypeDynamic:
		return "Dynamic"
	}
	switch {
	case d.Reg >= 0:
		return "#" + fmt.Sprint(d.Reg)
	case d.Name != "":
		return d.Name
	case d.Kind == reflect.Slice:
		return "[]" + d.Elem.String()
	case d.Kind == reflect.Array:
		return fmt.Sprintf("[%d]%s", d.Len, d.Elem)
	case d.Kind == reflect.Struct:
		return d.body()
	}
	return d.Kind.String()
}

func (d *Desc) body() string {
	var s []string
	for _, f := range d.Fields {
		if f.Skip {
			s = append(s, "-")
			continue
		}
		s = append(s, f.D.String())
	}
	return "{" + strings.Join(s, " ") + "}"
}

// String of the world
func (w *World) String() string {
	var s []string
	for i, d := range w.Types {
		s = append(s, fmt.Sprintf("#%d %q %s", i, d.Name, d.body()))
	}
	return strings.Join(s, ", ")
}

// Opts of the world
type Opts struct {
	MaxTypes int
	Plain    bool // simple fields only, apart from references
}

// DrawWorld draws registered types
func DrawWorld(t *rapid.T, o Opts) (w *World) {
	if o.MaxTypes == 0 {
		o.MaxTypes = 5
	}
	w = new(World)
	var n = rapid.IntRange(1, o.MaxTypes).Draw(t, "types")
	var used = map[string]bool{}
	for i := 0; i < n; i++ {
		var name = rapid.SampledFrom([]string{"T", "cxo.User", "a", "ab", "a.b", "Ж", "User", "b"}).Draw(t, "name")
		if used[name] {
			name = fmt.Sprintf("%s%d", name, i)
		}
		used[name] = true
		w.Types = append(w.Types, &Desc{Kind: reflect.Struct, Name: name, Reg: i})
	}
	for i := range w.Types {
		w.drawStruct(t, w.Types[i], i, 0, o)
	}
	w.Reg = w.Build(nil)
	return
}

// drawStruct draws fields of a struct that can contain (by value)
// registered types less then given one
func (w *World) drawStruct(t *rapid.T, d *Desc, less, depth int, o Opts) {
	var fs []reflect.StructField
	var add = func(f Field, typ reflect.Type) {
		d.Fields = append(d.Fields, f)
		fs = append(fs, reflect.StructField{Name: f.Name, Tag: reflect.StructTag(f.Tag), Type: typ})
	}
	var nm = func(pfx string) string {
		w.names++
		return fmt.Sprintf("%s%d", pfx, w.names)
	}
	if d.Reg >= 0 {
		// is different for different types
		add(Field{Name: nm("ID"), D: FromType(basic[11])}, basic[11])
	}
	var n = rapid.IntRange(0, 4).Draw(t, "fields")
	for i := 0; i < n; i++ {
		var f = Field{Name: nm("F")}
		switch rapid.IntRange(0, 9).Draw(t, "field") {
		case 0: // is not encoded
			if o.Plain {
				continue
			}
			f.Skip, f.Tag = true, `enc:"-"`
			add(f, rapid.SampledFrom([]reflect.Type{reflect.TypeOf(0), reflect.TypeOf(map[string]int{}), reflect.TypeOf(""), reflect.TypeOf(new(int))}).Draw(t, "skipped"))
			continue
		case 1, 2:
			f.D = &Desc{Kind: reflect.Ptr, Reg: -1, Ref: registry.ReferenceTypeSingle, T: typeRef,
				To: rapid.IntRange(0, len(w.Types)-1).Draw(t, "ref to")}
		case 3, 4:
			f.D = &Desc{Kind: reflect.Ptr, Reg: -1, Ref: registry.ReferenceTypeSlice, T: typeRefs,
				To: rapid.IntRange(0, len(w.Types)-1).Draw(t, "refs to")}
		default:
			f.D = w.drawDesc(t, less, depth+1, o)
			f.Tag = rapid.SampledFrom([]string{"", `json:"x"`, `some "odd tag`}).Draw(t, "tag")
		}
		if f.D.Ref == registry.ReferenceTypeSingle || f.D.Ref == registry.ReferenceTypeSlice {
			var name = w.Types[f.D.To].Name
			f.Tag = rapid.SampledFrom([]string{
				`skyobject:"schema=` + name + `"`,
				`json:"f" skyobject:"x,schema=` + name + `,y"`,
			}).Draw(t, "tag")
		}
		add(f, f.D.T)
	}
	d.T = reflect.StructOf(fs)
}

func (w *World) drawDesc(t *rapid.T, less, depth int, o Opts) (d *Desc) {
	var max = 9
	if depth > 3 {
		max = 4
	}
	switch k := rapid.IntRange(0, max).Draw(t, "kind"); k {
	case 0, 1:
		return FromType(rapid.SampledFrom(basic).Draw(t, "basic"))
	case 2:
		return FromType(reflect.TypeOf([]byte(nil)))
	case 3:
		return FromType(reflect.TypeOf(rapid.SampledFrom(named).Draw(t, "named")))
	case 4, 5:
		return &Desc{Kind: reflect.Interface, Reg: -1, Ref: registry.ReferenceTypeDynamic, T: typeDynamic}
	case 6: // slice
		var el = w.drawDesc(t, less, depth+1, o)
		if el.ZeroSize() {
			return el
		}
		return &Desc{Kind: reflect.Slice, Reg: -1, Elem: el, T: reflect.SliceOf(el.T)}
	case 7: // array
		var el = w.drawDesc(t, less, depth+1, o)
		var ln = rapid.IntRange(0, 3).Draw(t, "length")
		return &Desc{Kind: reflect.Array, Reg: -1, Elem: el, Len: ln, T: reflect.ArrayOf(ln, el.T)}
	case 8: // struct that is not registered
		d = &Desc{Kind: reflect.Struct, Reg: -1}
		w.drawStruct(t, d, less, depth+1, o)
		return
	default: // registered one
		if less == 0 {
			return FromType(basic[0])
		}
		return w.Types[rapid.IntRange(0, less-1).Draw(t, "type")]
	}
}

// Build the registry in given order of registration
func (w *World) Build(order []int) *registry.Registry {
	return registry.NewRegistry(func(r *registry.Reg) {
		for i := range w.Types {
			if order != nil {
				i = order[i]
			}
			var d = w.Types[i]
			if i%2 == 0 {
				r.Register(d.Name, reflect.New(d.T).Elem().Interface())
			} else {
				r.Register(d.Name, reflect.New(d.T).Interface()) // by pointer
			}
		}
	})
}

// SchemaRef of a type
func (w *World) SchemaRef(i int) registry.SchemaRef {
	var s, err = w.Reg.SchemaByName(w.Types[i].Name)
	if err != nil {
		panic(err)
	}
	return s.Reference()
}
