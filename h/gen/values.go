package gen

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"
)

// Child is a reference inside of an object
type Child struct {
	Ref    registry.ReferenceType
	Hash   cipher.SHA256
	Type   int             // type of the object or of elements
	Schema bool            // Dynamic with schema
	List   []cipher.SHA256 // of Refs
}

// Refs is the source of references of values
type Refs interface {
	// Draw reference of given kind (To is set for Ref and Refs)
	DrawRef(t *rapid.T, d *Desc) Child
}

// NoRefs gives blank references
type NoRefs struct{}

// DrawRef returns blank reference
func (NoRefs) DrawRef(t *rapid.T, d *Desc) Child { return Child{Ref: d.Ref, Type: d.To} }

// Value is generated value
type Value struct {
	D        *Desc
	V        reflect.Value
	Enc      []byte  // expected encoding
	Children []Child // in order
	Offsets  []int   // of fields (if it's a struct)
	Tokens   []string
}

// DrawValue draws value of given type
func (w *World) DrawValue(t *rapid.T, d *Desc, rs Refs, id string) (v *Value) {
	v = &Value{D: d, V: reflect.New(d.T).Elem()}
	w.draw(t, d, v.V, v, rs, id, true)
	return
}

func (v *Value) u32(x uint32) { v.Enc = binary.LittleEndian.AppendUint32(v.Enc, x) }

func (w *World) draw(t *rapid.T, d *Desc, r reflect.Value, v *Value, rs Refs, id string, top bool) {

	if d.IsRef() {
		var c = rs.DrawRef(t, d)
		v.Children = append(v.Children, c)
		v.Enc = append(v.Enc, c.Hash[:]...)
		switch d.Ref {
		case registry.ReferenceTypeSingle:
			r.Set(reflect.ValueOf(registry.Ref{Hash: c.Hash}))
		case registry.ReferenceTypeSlice:
			r.Field(0).Set(reflect.ValueOf(c.Hash))
		case registry.ReferenceTypeDynamic:
			var dr = registry.Dynamic{Hash: c.Hash}
			if c.Schema {
				dr.Schema = w.SchemaRef(c.Type)
			}
			v.Enc = append(v.Enc, dr.Schema[:]...)
			r.Set(reflect.ValueOf(dr))
		}
		return
	}

	switch d.Kind {
	case reflect.Bool:
		var b = rapid.Bool().Draw(t, "bool")
		r.SetBool(b)
		if b {
			v.Enc = append(v.Enc, 1)
		} else {
			v.Enc = append(v.Enc, 0)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		var bits = d.T.Bits()
		var x = rapid.Int64().Draw(t, "int") << (64 - bits) >> (64 - bits)
		r.SetInt(x)
		for i := 0; i < bits; i += 8 {
			v.Enc = append(v.Enc, byte(x>>i))
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var bits = d.T.Bits()
		var x = rapid.Uint64().Draw(t, "uint") << (64 - bits) >> (64 - bits)
		r.SetUint(x)
		for i := 0; i < bits; i += 8 {
			v.Enc = append(v.Enc, byte(x>>i))
		}
	case reflect.Float32:
		var x = rapid.Float32().Draw(t, "float")
		r.SetFloat(float64(x))
		v.u32(math.Float32bits(x))
	case reflect.Float64:
		var x = rapid.Float64().Draw(t, "float")
		r.SetFloat(x)
		v.Enc = binary.LittleEndian.AppendUint64(v.Enc, math.Float64bits(x))
	case reflect.String:
		var s string
		if id != "" {
			s = fmt.Sprintf("%s.%d.", id, len(v.Tokens))
			v.Tokens = append(v.Tokens, s)
		} else {
			s = rapid.StringN(0, 6, -1).Draw(t, "string")
		}
		r.SetString(s)
		v.u32(uint32(len(s)))
		v.Enc = append(v.Enc, s...)
	case reflect.Slice:
		var n = rapid.IntRange(0, 3).Draw(t, "length")
		v.u32(uint32(n))
		if n > 0 {
			r.Set(reflect.MakeSlice(d.T, n, n))
		}
		for i := 0; i < n; i++ {
			w.draw(t, d.Elem, r.Index(i), v, rs, id, false)
		}
	case reflect.Array:
		if d.Len > 3 && d.Elem.Kind == reflect.Uint8 { // public keys and hashes
			var x = sha256.Sum256([]byte(fmt.Sprint(rapid.Uint16().Draw(t, "key"))))
			for i := 0; i < d.Len; i++ {
				r.Index(i).SetUint(uint64(x[i%32]))
				v.Enc = append(v.Enc, x[i%32])
			}
			return
		}
		for i := 0; i < d.Len; i++ {
			w.draw(t, d.Elem, r.Index(i), v, rs, id, false)
		}
	case reflect.Struct:
		for i, f := range d.Fields {
			if f.Skip {
				continue
			}
			if top {
				v.Offsets = append(v.Offsets, len(v.Enc))
			}
			w.draw(t, f.D, r.Field(i), v, rs, id, false)
		}
	default:
		panic("gen: unexpected kind " + d.Kind.String())
	}
}

// Hash of the value
func (v *Value) Hash() cipher.SHA256 { return cipher.SHA256(sha256.Sum256(v.Enc)) }
