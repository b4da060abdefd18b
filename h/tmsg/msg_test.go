package tmsg

import (
	"bytes"
	"encoding/binary"
	"errors"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/node/msg"

	"verif/h/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// the protocol: type byte, name, constructor of empty message
var protocol = []struct {
	typ  byte
	name string
	m    func() msg.Msg
}{
	{1, "Ping", func() msg.Msg { return new(msg.Ping) }},
	{2, "Pong", func() msg.Msg { return new(msg.Pong) }},
	{3, "Syn", func() msg.Msg { return new(msg.Syn) }},
	{4, "Ack", func() msg.Msg { return new(msg.Ack) }},
	{5, "Ok", func() msg.Msg { return new(msg.Ok) }},
	{6, "Err", func() msg.Msg { return new(msg.Err) }},
	{7, "Sub", func() msg.Msg { return new(msg.Sub) }},
	{8, "Unsub", func() msg.Msg { return new(msg.Unsub) }},
	{9, "RqList", func() msg.Msg { return new(msg.RqList) }},
	{10, "List", func() msg.Msg { return new(msg.List) }},
	{11, "Root", func() msg.Msg { return new(msg.Root) }},
	{12, "RqObject", func() msg.Msg { return new(msg.RqObject) }},
	{13, "Object", func() msg.Msg { return new(msg.Object) }},
	{14, "RqPreview", func() msg.Msg { return new(msg.RqPreview) }},
	{15, "RqPeers", func() msg.Msg { return new(msg.RqPeers) }},
	{16, "Peers", func() msg.Msg { return new(msg.Peers) }},
}

func u32(b []byte, n int) []byte { return binary.LittleEndian.AppendUint32(b, uint32(n)) }
func str(b, s []byte) []byte     { return append(u32(b, len(s)), s...) }

func fill(t *rapid.T, p []byte, what string) {
	switch rapid.IntRange(0, 3).Draw(t, what+" kind") {
	case 0: // blank
	case 1:
		for i := range p {
			p[i] = 0xff
		}
	default:
		copy(p, rapid.SliceOfN(rapid.Byte(), len(p), len(p)).Draw(t, what))
	}
}

func drawBytes(t *rapid.T, what string) []byte {
	var n = rapid.OneOf(rapid.IntRange(0, 12), rapid.SampledFrom([]int{0, 1, 255, 256, 257, 1000, 1000, 65536})).Draw(t, what+" length")
	var b = make([]byte, n)
	if n > 12 {
		var k = rapid.Byte().Draw(t, what+" filler")
		for i := range b {
			b[i] = k + byte(i*7)
		}
		return b
	}
	copy(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, what))
	return b
}

func drawPK(t *rapid.T, what string) (p cipher.PubKey) { fill(t, p[:], what); return }

// drawMsg with encoding made without the encoder
func drawMsg(t *rapid.T) (m msg.Msg, e []byte, i int) {
	i = rapid.IntRange(0, len(protocol)-1).Draw(t, "type")
	m = protocol[i].m()
	e = []byte{protocol[i].typ}
	switch x := m.(type) {
	case *msg.Syn:
		x.Protocol = rapid.Uint16().Draw(t, "protocol")
		x.NodeID = drawPK(t, "id")
		e = binary.LittleEndian.AppendUint16(e, x.Protocol)
		e = append(e, x.NodeID[:]...)
	case *msg.Ack:
		x.NodeID = drawPK(t, "id")
		e = append(e, x.NodeID[:]...)
	case *msg.Err:
		x.Err = string(drawBytes(t, "error"))
		e = str(e, []byte(x.Err))
	case *msg.Sub:
		x.Feed = drawPK(t, "feed")
		e = append(e, x.Feed[:]...)
	case *msg.Unsub:
		x.Feed = drawPK(t, "feed")
		e = append(e, x.Feed[:]...)
	case *msg.List:
		var n = rapid.OneOf(rapid.IntRange(0, 4), rapid.SampledFrom([]int{0, 255, 300})).Draw(t, "feeds")
		e = u32(e, n)
		for k := 0; k < n; k++ {
			var p cipher.PubKey
			if k < 4 {
				p = drawPK(t, "feed")
			} else {
				p[k%33] = byte(k)
			}
			x.Feeds = append(x.Feeds, p)
			e = append(e, p[:]...)
		}
	case *msg.Root:
		x.Feed = drawPK(t, "feed")
		x.Nonce = rapid.Uint64().Draw(t, "nonce")
		x.Seq = rapid.Uint64().Draw(t, "seq")
		x.Value = drawBytes(t, "value")
		fill(t, x.Sig[:], "sig")
		e = append(e, x.Feed[:]...)
		e = binary.LittleEndian.AppendUint64(e, x.Nonce)
		e = binary.LittleEndian.AppendUint64(e, x.Seq)
		e = str(e, x.Value)
		e = append(e, x.Sig[:]...)
	case *msg.RqObject:
		fill(t, x.Key[:], "key")
		e = append(e, x.Key[:]...)
	case *msg.Object:
		x.Value = drawBytes(t, "value")
		e = str(e, x.Value)
	case *msg.RqPreview:
		x.Feed = drawPK(t, "feed")
		e = append(e, x.Feed[:]...)
	case *msg.RqPeers:
		x.Feed = drawPK(t, "feed")
		e = append(e, x.Feed[:]...)
	case *msg.Peers:
		x.Feed = drawPK(t, "feed")
		e = append(e, x.Feed[:]...)
		var n = rapid.IntRange(0, 4).Draw(t, "peers")
		e = u32(e, n)
		for k := 0; k < n; k++ {
			var p = msg.PeerInfo{PubKey: drawPK(t, "peer"), Metadata: drawBytes(t, "metadata"),
				TCPAddr: string(drawBytes(t, "tcp")), UDPAddr: string(drawBytes(t, "udp"))}
			x.List = append(x.List, p)
			e = append(e, p.PubKey[:]...)
			e = str(e, p.Metadata)
			e = str(e, []byte(p.TCPAddr))
			e = str(e, []byte(p.UDPAddr))
		}
	}
	return
}

// equal regardless of nil and empty slices
func equal(a, b msg.Msg) bool {
	var norm func(v reflect.Value) interface{}
	norm = func(v reflect.Value) interface{} {
		switch v.Kind() {
		case reflect.Ptr:
			return norm(v.Elem())
		case reflect.Struct:
			var s []interface{}
			for i := 0; i < v.NumField(); i++ {
				s = append(s, norm(v.Field(i)))
			}
			return s
		case reflect.Slice:
			var s = []interface{}{}
			for i := 0; i < v.Len(); i++ {
				s = append(s, norm(v.Index(i)))
			}
			return s
		}
		return v.Interface()
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) &&
		reflect.DeepEqual(norm(reflect.ValueOf(a)), norm(reflect.ValueOf(b)))
}

func guard(t *rapid.T, size int, fn func()) {
	t.Helper()
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	pbt.Within(60*time.Second, "Decode", fn)
	runtime.ReadMemStats(&after)
	if got := after.TotalAlloc - before.TotalAlloc; got > uint64(64<<20+size*1024) {
		t.Fatalf("decoding takes %d bytes of memory for %d bytes of input", got, size)
	}
}

// decodes bytes that nobody may trust
func decodeAny(t *rapid.T, c *pbt.Case, b []byte) {
	var in = append([]byte(nil), b...)
	var m msg.Msg
	var err error
	guard(t, len(b), func() { m, err = msg.Decode(in) })
	if !bytes.Equal(in, b) {
		t.Fatal("Decode changes its argument")
	}
	if len(b) == 0 {
		if err != msg.ErrEmptyMessage {
			t.Fatalf("empty message: %v", err)
		}
		return
	}
	if b[0] < 1 || int(b[0]) > len(protocol) {
		var it, ok = err.(msg.InvalidTypeError)
		if !ok {
			errors.As(err, &it)
		}
		if err == nil || it.Type() != msg.Type(b[0]) {
			t.Fatalf("type %d: %v, %v", b[0], m, err)
		}
		_ = err.Error()
		c.Class("invalid type")
		return
	}
	if err != nil {
		if m != nil {
			t.Fatalf("message with error %v: %v", err, m)
		}
		c.Class("rejected")
		return
	}
	c.Class("decoded")
	if m.Type() != msg.Type(b[0]) || reflect.TypeOf(m) != reflect.TypeOf(protocol[b[0]-1].m()) {
		t.Fatalf("type %d is decoded as %T", b[0], m)
	}
	if !bytes.Equal(m.Encode(), b) {
		t.Fatalf("bytes %x are decoded as %v, that encodes to %x", b, m, m.Encode())
	}
}

func TestN01(t *testing.T) {
	if msg.Version != 3 {
		t.Errorf("the layout checked here is of version 3 of the protocol, not %d", msg.Version)
	}
	pbt.Check(t, "N01", 12000, 150000, func(t *rapid.T, c *pbt.Case) {
		var m, e, i = drawMsg(t)
		c.Note("%s of %d bytes: %.60x", protocol[i].name, len(e), e)
		c.Class(protocol[i].name)
		if len(e) > 1 {
			c.NonTrivial()
		}
		if m.Type() != msg.Type(protocol[i].typ) || m.Type().String() != protocol[i].name {
			t.Fatalf("%s has type %d %q", protocol[i].name, m.Type(), m.Type())
		}
		if b := m.Encode(); !bytes.Equal(b, e) {
			t.Fatalf("%s is encoded\nto   %x\nwant %x", protocol[i].name, b, e)
		}
		if b := m.Encode(); !bytes.Equal(b, e) { // again
			t.Fatalf("second encoding of %s is different", protocol[i].name)
		}
		var x, err = msg.Decode(e)
		if err != nil {
			t.Fatalf("%s %x: %v", protocol[i].name, e, err)
		}
		if !equal(m, x) {
			t.Fatalf("%s decoded as\n     %v\nwant %v", protocol[i].name, x, m)
		}
		// cut
		var step = 1 + len(e)/300*10
		for k := 0; k < len(e); k += step {
			if x, err = msg.Decode(e[:k:k]); err == nil {
				t.Fatalf("%s cut to %d of %d bytes is decoded: %v", protocol[i].name, k, len(e), x)
			}
		}
		if x, err = msg.Decode(e[: len(e)-1 : len(e)-1]); err == nil {
			t.Fatalf("%s without the last byte is decoded: %v", protocol[i].name, x)
		}
		// with capacity that holds the rest
		if x, err = msg.Decode(e[:len(e)-1]); err == nil {
			t.Fatalf("%s without the last byte is decoded: %v", protocol[i].name, x)
		}
		// extended
		var tail = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "tail")
		if x, err = msg.Decode(append(append([]byte(nil), e...), tail...)); err == nil {
			t.Fatalf("%s with tail is decoded: %v", protocol[i].name, x)
		}
		// another type
		var o = append([]byte(nil), e...)
		o[0] = rapid.Byte().Draw(t, "another type")
		decodeAny(t, c, o)
	})
}

func TestN01Types(t *testing.T) {
	var seen = make(map[string]int)
	for i := 0; i < 256; i++ {
		pbt.Enumerate("N01 types", func(c *pbt.Case) {
			var s = msg.Type(i).String()
			if p, ok := seen[s]; ok {
				t.Errorf("types %d and %d are both %q", i, p, s)
			}
			seen[s] = i
			c.Note("%d %s", i, s)
			c.NonTrivial()
			var _, err = msg.Decode([]byte{byte(i)})
			var it, ok = err.(msg.InvalidTypeError)
			var known = i > 0 && i <= len(protocol)
			if ok == known || (ok && it.Type() != msg.Type(i)) {
				t.Errorf("type %d: %v", i, err)
			}
		})
	}
}

func TestN01Mutated(t *testing.T) {
	pbt.Check(t, "N01 mutated", 12000, 200000, func(t *rapid.T, c *pbt.Case) {
		var b []byte
		if rapid.IntRange(0, 4).Draw(t, "any bytes") == 0 {
			b = rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
		} else {
			_, b, _ = drawMsg(t)
			for k := rapid.IntRange(1, 3).Draw(t, "mutations"); k > 0; k-- {
				var pos = rapid.IntRange(0, len(b)).Draw(t, "position")
				switch rapid.IntRange(0, 4).Draw(t, "mutation") {
				case 0:
					b = b[:pos]
				case 1:
					b = append(b[:pos:pos], append(rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "insert"), b[pos:]...)...)
				case 2:
					if pos < len(b) {
						b[pos] ^= 1 << rapid.UintRange(0, 7).Draw(t, "bit")
					}
				case 3:
					if pos+4 <= len(b) {
						binary.LittleEndian.PutUint32(b[pos:], rapid.SampledFrom([]uint32{0, 1, 5, 33, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(t, "length"))
					}
				case 4:
					if pos < len(b) {
						b = append(b[:pos:pos], b[pos+1:]...)
					}
				}
			}
		}
		c.Note("%d bytes %.80x", len(b), b)
		if len(b) > 1 {
			c.NonTrivial()
		}
		decodeAny(t, c, b)
	})
}
