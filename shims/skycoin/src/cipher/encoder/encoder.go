// Package encoder is an offline stand-in for
// github.com/skycoin/skycoin/src/cipher/encoder (the fork skycoin/cxo pins).
//
// It implements the documented wire format of the skycoin encoder: little
// endian fixed-width integers, one byte booleans, uint32 length prefixes for
// strings, slices and maps, arrays and structs inline. Unexported fields,
// fields named "_" and fields tagged `enc:"-"` are skipped.
package encoder

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
)

// errors
var (
	ErrBufferUnderflow  = errors.New("not enough buffer data to deserialize")
	ErrInvalidLength    = errors.New("invalid length")
	ErrNotPointer       = errors.New("DeserializeRaw: value is not a pointer")
	ErrUnsupportedValue = errors.New("unsupported type")
)

func skipField(f reflect.StructField) bool {
	if f.PkgPath != "" || f.Name == "_" {
		return true
	}
	tag := f.Tag.Get("enc")
	return len(tag) > 0 && tag[0] == '-'
}

// SerializeAtomic encodes an integer or bool
func SerializeAtomic(data interface{}) []byte {
	return Serialize(data)
}

// DeserializeAtomic decodes an integer or bool
func DeserializeAtomic(in []byte, data interface{}) (uint64, error) {
	return DeserializeRaw(in, data)
}

// Serialize encodes given value. It panics if the type is not supported
func Serialize(data interface{}) []byte {
	var v = reflect.Indirect(reflect.ValueOf(data))
	var out = make([]byte, 0, 64)
	return appendValue(out, v)
}

// Size of encoded value
func Size(v interface{}) int {
	return len(Serialize(v))
}

func appendValue(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Int16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Int()))
	case reflect.Int32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Int()))
	case reflect.Int64:
		return binary.LittleEndian.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Uint16:
		return binary.LittleEndian.AppendUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		return binary.LittleEndian.AppendUint32(b, uint32(v.Uint()))
	case reflect.Uint64:
		return binary.LittleEndian.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return binary.LittleEndian.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.String:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		return append(b, v.String()...)
	case reflect.Slice:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = appendValue(b, v.Index(i))
		}
		return b
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = appendValue(b, v.Index(i))
		}
		return b
	case reflect.Map:
		b = binary.LittleEndian.AppendUint32(b, uint32(v.Len()))
		for _, k := range v.MapKeys() {
			b = appendValue(b, k)
			b = appendValue(b, v.MapIndex(k))
		}
		return b
	case reflect.Struct:
		var t = v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skipField(t.Field(i)) {
				continue
			}
			b = appendValue(b, v.Field(i))
		}
		return b
	}
	panic(fmt.Sprintf("encoder: kind %s is not supported", v.Kind()))
}

// DeserializeRaw decodes to the value the data points to. It returns
// number of bytes consumed
func DeserializeRaw(in []byte, data interface{}) (n uint64, err error) {
	var v = reflect.ValueOf(data)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return 0, ErrNotPointer
	}
	var d = decoder{in}
	if err = d.value(v.Elem()); err != nil {
		return uint64(len(in) - len(d.b)), err
	}
	return uint64(len(in) - len(d.b)), nil
}

// DeserializeRawToValue is DeserializeRaw that takes reflect.Value
func DeserializeRawToValue(in []byte, v reflect.Value) (n uint64, err error) {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if !v.CanSet() {
		return 0, ErrNotPointer
	}
	var d = decoder{in}
	if err = d.value(v); err != nil {
		return uint64(len(in) - len(d.b)), err
	}
	return uint64(len(in) - len(d.b)), nil
}

type decoder struct{ b []byte }

func (d *decoder) take(n int) ([]byte, error) {
	if n < 0 || len(d.b) < n {
		return nil, ErrBufferUnderflow
	}
	var r = d.b[:n]
	d.b = d.b[n:]
	return r, nil
}

func (d *decoder) length() (int, error) {
	var b, err = d.take(4)
	if err != nil {
		return 0, err
	}
	var u = binary.LittleEndian.Uint32(b)
	if uint64(u) > uint64(len(d.b)) {
		return 0, ErrInvalidLength
	}
	return int(u), nil
}

func (d *decoder) value(v reflect.Value) (err error) {
	var b []byte
	switch v.Kind() {
	case reflect.Bool:
		if b, err = d.take(1); err != nil {
			return
		}
		v.SetBool(b[0] != 0)
	case reflect.Int8:
		if b, err = d.take(1); err != nil {
			return
		}
		v.SetInt(int64(int8(b[0])))
	case reflect.Int16:
		if b, err = d.take(2); err != nil {
			return
		}
		v.SetInt(int64(int16(binary.LittleEndian.Uint16(b))))
	case reflect.Int32:
		if b, err = d.take(4); err != nil {
			return
		}
		v.SetInt(int64(int32(binary.LittleEndian.Uint32(b))))
	case reflect.Int64:
		if b, err = d.take(8); err != nil {
			return
		}
		v.SetInt(int64(binary.LittleEndian.Uint64(b)))
	case reflect.Uint8:
		if b, err = d.take(1); err != nil {
			return
		}
		v.SetUint(uint64(b[0]))
	case reflect.Uint16:
		if b, err = d.take(2); err != nil {
			return
		}
		v.SetUint(uint64(binary.LittleEndian.Uint16(b)))
	case reflect.Uint32:
		if b, err = d.take(4); err != nil {
			return
		}
		v.SetUint(uint64(binary.LittleEndian.Uint32(b)))
	case reflect.Uint64:
		if b, err = d.take(8); err != nil {
			return
		}
		v.SetUint(binary.LittleEndian.Uint64(b))
	case reflect.Float32:
		if b, err = d.take(4); err != nil {
			return
		}
		v.SetFloat(float64(math.Float32frombits(binary.LittleEndian.Uint32(b))))
	case reflect.Float64:
		if b, err = d.take(8); err != nil {
			return
		}
		v.SetFloat(math.Float64frombits(binary.LittleEndian.Uint64(b)))
	case reflect.String:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		if b, err = d.take(n); err != nil {
			return
		}
		v.SetString(string(b))
	case reflect.Slice:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if b, err = d.take(n); err != nil {
				return
			}
			if n == 0 {
				v.Set(reflect.Zero(v.Type()))
				return
			}
			v.SetBytes(append([]byte{}, b...))
			return
		}
		if n == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		var s = reflect.MakeSlice(v.Type(), 0, 0)
		for i := 0; i < n; i++ {
			var e = reflect.New(v.Type().Elem()).Elem()
			if err = d.value(e); err != nil {
				return
			}
			s = reflect.Append(s, e)
		}
		v.Set(s)
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if b, err = d.take(v.Len()); err != nil {
				return
			}
			reflect.Copy(v.Slice(0, v.Len()), reflect.ValueOf(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			if err = d.value(v.Index(i)); err != nil {
				return
			}
		}
	case reflect.Map:
		var n int
		if n, err = d.length(); err != nil {
			return
		}
		var m = reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			var k = reflect.New(v.Type().Key()).Elem()
			var e = reflect.New(v.Type().Elem()).Elem()
			if err = d.value(k); err != nil {
				return
			}
			if err = d.value(e); err != nil {
				return
			}
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		var t = v.Type()
		for i := 0; i < v.NumField(); i++ {
			if skipField(t.Field(i)) {
				continue
			}
			if err = d.value(v.Field(i)); err != nil {
				return
			}
		}
	default:
		return ErrUnsupportedValue
	}
	return
}
