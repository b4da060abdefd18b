package treg

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/skycoin/skycoin/src/cipher"
	"pgregory.net/rapid"

	"github.com/skycoin/cxo/skyobject/registry"

	"verif/h/gen"
	"verif/h/pbt"
)

// line of a printed tree
type line struct {
	depth  int
	label  string   // name of a field
	values []string // any of them is shown
	prefix string   // or what it begins with
}

// printer is a model of printing
type printer struct {
	g     *gen.Graph
	lines []line
	vague bool // has many elements without size, they can be shown shortly
}

const maxLines = 4000

func (p *printer) add(l line) {
	p.lines = append(p.lines, l)
}

func (p *printer) object(depth int, label string, h cipher.SHA256) {
	var o = p.g.All[h]
	p.value(depth, label, o.Value.D, o.Value.V)
}

func (p *printer) value(depth int, label string, d *gen.Desc, v reflect.Value) {
	if len(p.lines) > maxLines {
		return
	}
	switch d.Ref {
	case registry.ReferenceTypeSingle:
		p.add(line{depth: depth, label: label, prefix: "*("})
		if h := v.Interface().(registry.Ref).Hash; h != (cipher.SHA256{}) {
			p.object(depth+1, "", h)
		}
		return
	case registry.ReferenceTypeDynamic:
		p.dynamic(depth, label, v.Interface().(registry.Dynamic))
		return
	case registry.ReferenceTypeSlice:
		p.add(line{depth: depth, label: label, prefix: "[]*("})
		var h = v.Field(0).Interface().(cipher.SHA256)
		if h == (cipher.SHA256{}) {
			return
		}
		for _, e := range p.g.Trees[h] {
			if e == (cipher.SHA256{}) {
				p.add(line{depth: depth + 1, values: []string{"nil"}})
			} else {
				p.object(depth+1, "", e)
			}
		}
		return
	}
	var leaf = func(vals ...string) { p.add(line{depth: depth, label: label, values: vals}) }
	switch d.Kind {
	case reflect.Bool:
		leaf(fmt.Sprint(v.Bool()))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		leaf(fmt.Sprint(v.Int()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		leaf(fmt.Sprint(v.Uint()))
	case reflect.Float32:
		leaf(fmt.Sprint(v.Float()), fmt.Sprint(float32(v.Float())))
	case reflect.Float64:
		leaf(fmt.Sprint(v.Float()))
	case reflect.String:
		leaf(v.String())
	case reflect.Slice, reflect.Array:
		if d.Kind == reflect.Slice && d.Elem.Kind == reflect.Uint8 {
			p.add(line{depth: depth, label: label, values: []string{"([]byte) " + hex.EncodeToString(v.Bytes())}})
			return
		}
		p.add(line{depth: depth, label: label, prefix: "["})
		p.vague = p.vague || v.Len() > 1 && d.Elem.ZeroSize()
		for i := 0; i < v.Len(); i++ {
			p.value(depth+1, "", d.Elem, v.Index(i))
		}
	case reflect.Struct:
		p.add(line{depth: depth, label: label})
		for i, f := range d.Fields {
			if !f.Skip {
				p.value(depth+1, f.Name, f.D, v.Field(i))
			}
		}
	default:
		panic(d.Kind)
	}
}

func (p *printer) dynamic(depth int, label string, dr registry.Dynamic) {
	p.add(line{depth: depth, label: label, prefix: "*(dynamic)"})
	if dr.Hash != (cipher.SHA256{}) {
		p.object(depth+1, "", dr.Hash)
	}
}

// TestR07Printed: a printed Root shows every value of every object, in order,
// at its place
func TestR07Printed(t *testing.T) {
	pbt.Check(t, "R07 printed", 8000, 80000, func(t *rapid.T, c *pbt.Case) {
		var w = gen.DrawWorld(t, gen.Opts{MaxTypes: 5})
		var g = drawGraph(t, w, 6)
		var r, _ = drawRoot(t, w, g)
		c.Note("%s; %d objects", w, len(g.List))
		var p = newPack(decoded(t, w.Reg), 16, 0)
		p.m = g.Store()
		p.readOnly = true
		var pr = &printer{g: g}
		for _, dr := range r.Refs {
			pr.dynamic(1, "", dr)
		}
		if len(pr.lines) > maxLines {
			t.Skip("too big")
		}
		if len(r.Refs) == 0 {
			pr.add(line{depth: 1, values: []string{"(empty)"}})
		}
		var out, err = r.Tree(p)
		if err != nil {
			t.Fatalf("Tree: %v", err)
		}
		var got = strings.Split(strings.TrimRight(out, "\n"), "\n")
		if !strings.Contains(got[0], r.Reg.Short()) || !strings.Contains(got[0], fmt.Sprint(r.Seq)) {
			t.Fatalf("title %q has no registry or seq", got[0])
		}
		got = got[1:]
		if pr.vague {
			return
		}
		if len(got) != len(pr.lines) {
			t.Fatalf("%d lines instead of %d:\n%s", len(got), len(pr.lines), out)
		}
		var values int
		for i, l := range pr.lines {
			var s = []rune(got[i])
			if len(s) < 4*l.depth {
				t.Fatalf("line %d is short:\n%s", i, out)
			}
			var text = string(s[4*l.depth:])
			if mark := s[4*l.depth-4]; mark == ' ' || mark == '│' {
				t.Fatalf("line %d: %q is deeper than %d:\n%s", i, got[i], l.depth, out)
			}
			if l.label != "" {
				if !strings.HasPrefix(text, l.label+": ") {
					t.Fatalf("line %d: %q has no name of field %q:\n%s", i, text, l.label, out)
				}
				text = text[len(l.label)+2:]
			}
			if !strings.HasPrefix(text, l.prefix) {
				t.Fatalf("line %d: %q does not begin with %q:\n%s", i, text, l.prefix, out)
			}
			if l.values == nil {
				continue
			}
			values++
			var ok bool
			for _, v := range l.values {
				ok = ok || text == v || strings.HasPrefix(text, v+" (type ")
			}
			if !ok {
				t.Fatalf("line %d: %q, want %q:\n%s", i, text, l.values, out)
			}
		}
		if values > 3 {
			c.NonTrivial()
		}
	})
}
