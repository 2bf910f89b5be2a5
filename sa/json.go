package main

// Model of encoding/json on abstract documents: a document is a tree whose strings and numbers may be
// unknown; decoding follows the type-directed rules of encoding/json.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type JNode struct {
	kind string // "null", "bool", "num", "str", "arr", "obj", "bad"
	v    V      // bool, num, str
	arr  []*JNode
	obj  []JEnt
}

type JEnt struct {
	key V // Str or *SymStr
	val *JNode
}

// JData is the text of a document (as []byte).
type JData struct {
	n    *JNode
	sstr *SymStr
}

var jdataOf = map[*SymStr]*JData{}

var jlens = map[*JNode]*NAtom{}

// length of the text: anything beyond that of the most compact form, as there may be white space.
func (d *JData) length() V {
	a, ok := jlens[d.n]
	if !ok {
		a = newAtom("white space")
		a.pos, a.nz = true, true
		jlens[d.n] = a
	}
	return Num{atomPoly(a).Add(intPoly(int64(d.n.minLen() - 1)))}
}

func (n *JNode) minLen() int {
	switch n.kind {
	case "null", "bool":
		return 4
	case "str":
		if s, ok := n.v.(Str); ok {
			return 2 + len(s.s)
		}
		return 2
	case "arr":
		l := 2 + max(0, len(n.arr)-1)
		for _, e := range n.arr {
			l += e.minLen()
		}
		return l
	case "obj":
		l := 2 + max(0, len(n.obj)-1)
		for _, e := range n.obj {
			l += 3 + e.val.minLen()
			if s, ok := e.key.(Str); ok {
				l += len(s.s)
			}
		}
		return l
	}
	return 1
}

func (n *JNode) firstByte() byte {
	switch n.kind {
	case "null":
		return 'n'
	case "str":
		return '"'
	case "arr":
		return '['
	case "obj":
		return '{'
	case "bool":
		if b, ok := n.v.(Bool); ok {
			if b {
				return 't'
			}
			return 'f'
		}
	}
	return 0
}

func (d *JData) text() V {
	switch d.n.kind {
	case "null":
		return Str{"null"}
	case "obj":
		if len(d.n.obj) == 0 {
			return Str{"{}"}
		}
	case "arr":
		if len(d.n.arr) == 0 {
			return Str{"[]"}
		}
	}
	if d.sstr == nil {
		d.sstr = &SymStr{name: "document text", opaque: true, minLen: 1}
		jdataOf[d.sstr] = d
	}
	return d.sstr
}

func jnum(p *Poly) *JNode     { return &JNode{kind: "num", v: Num{p}} }
func jint(i int) *JNode       { return jnum(intPoly(int64(i))) }
func jstr(s string) *JNode    { return &JNode{kind: "str", v: Str{s}} }
func jsym(s *SymStr) *JNode   { return &JNode{kind: "str", v: s} }
func jval(v V) *JNode         { return &JNode{kind: "str", v: v} }
func jarr(e ...*JNode) *JNode { return &JNode{kind: "arr", arr: e} }
func jnull() *JNode           { return &JNode{kind: "null"} }
func jbool(b bool) *JNode     { return &JNode{kind: "bool", v: Bool(b)} }

// jobj builds an object from key/value pairs; keys are strings or V.
func jobj(kv ...any) *JNode {
	n := &JNode{kind: "obj"}
	for i := 0; i < len(kv); i += 2 {
		n.obj = append(n.obj, JEnt{toKey(kv[i]), kv[i+1].(*JNode)})
	}
	return n
}

func toKey(k any) V {
	if s, ok := k.(string); ok {
		return Str{s}
	}
	return k
}

// clone copies a document deeply.
func (n *JNode) clone() *JNode {
	r := *n
	r.arr = nil
	for _, e := range n.arr {
		r.arr = append(r.arr, e.clone())
	}
	r.obj = nil
	for _, e := range n.obj {
		r.obj = append(r.obj, JEnt{e.key, e.val.clone()})
	}
	return &r
}

// at navigates by constant keys and indices.
func (n *JNode) at(path ...any) *JNode {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			found := false
			for _, e := range n.obj {
				if s, ok := e.key.(Str); ok && s.s == k {
					n = e.val
					found = true
					break
				}
			}
			if !found {
				panic("document has no key " + k)
			}
		case int:
			n = n.arr[k]
		}
	}
	return n
}

func (n *JNode) set(key string, v *JNode) *JNode {
	for i, e := range n.obj {
		if s, ok := e.key.(Str); ok && s.s == key {
			n.obj[i].val = v
			return n
		}
	}
	n.obj = append(n.obj, JEnt{Str{key}, v})
	return n
}

func (n *JNode) del(key string) *JNode {
	for i, e := range n.obj {
		if s, ok := e.key.(Str); ok && s.s == key {
			n.obj = append(append([]JEnt(nil), n.obj[:i]...), n.obj[i+1:]...)
			return n
		}
	}
	panic("document has no key " + key)
}

func (n *JNode) String() string {
	switch n.kind {
	case "null":
		return "null"
	case "arr":
		var p []string
		for _, e := range n.arr {
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, ",") + "]"
	case "obj":
		var p []string
		for _, e := range n.obj {
			p = append(p, show(e.key)+":"+e.val.String())
		}
		return "{" + strings.Join(p, ",") + "}"
	case "bad":
		return "<malformed>"
	}
	return show(n.v)
}

type jdec struct {
	it     *Interp
	strict bool
	err    V // accumulated (possibly gated) error
}

func (d *jdec) fail(format string, a ...any) {
	e := errValue(d.it, "json: "+fmt.Sprintf(format, a...), nil)
	d.err = errJoin(d.it, []V{d.err, e})
}

func (it *Interp) jsonDecode(n *JNode, v V, strict bool) V {
	return it.lift(v, func(l V) V {
		i := l.(Iface)
		pt, ok := types.Type(nil), false
		if i.typ != nil {
			var p *types.Pointer
			p, ok = i.typ.Underlying().(*types.Pointer)
			if ok {
				pt = p.Elem()
			}
		}
		if !ok {
			return errValue(it, "json: Unmarshal(non-pointer)", nil)
		}
		if hasBad(n) {
			return errValue(it, "json: syntax error", nil)
		}
		d := &jdec{it: it, strict: strict, err: Iface{}}
		return it.lift(i.val, func(p V) V {
			if p.(Ptr).o == nil {
				return errValue(it, "json: Unmarshal(nil)", nil)
			}
			d.decode(n, pt, p.(Ptr))
			return d.err
		})
	})
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return q == "encoding/json.RawMessage" || q == "encoding/json/jsontext.Value"
}

func hasBad(n *JNode) bool {
	if n.kind == "bad" {
		return true
	}
	for _, e := range n.arr {
		if hasBad(e) {
			return true
		}
	}
	for _, e := range n.obj {
		if hasBad(e.val) {
			return true
		}
	}
	return false
}

func (d *jdec) decode(n *JNode, t types.Type, addr Ptr) {
	it := d.it
	if isRawMessage(t) {
		it.store(addr, &JData{n: n})
		return
	}
	// custom decoding
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
		if fn := it.prog.methodByName(types.NewPointer(t), "UnmarshalJSON"); fn != nil && !types.IsInterface(t) {
			e := it.callFn(fn, []V{addr, &JData{n: n}}, nil, nil)
			d.err = errJoin(it, []V{d.err, e})
			return
		}
		if fn := it.prog.methodByName(types.NewPointer(t), "UnmarshalText"); fn != nil && !types.IsInterface(t) && n.kind == "str" {
			unsupported("UnmarshalText on %v", t)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == "null" {
			it.store(addr, Ptr{})
			return
		}
		o := it.alloc("json", u.Elem(), it.zero(u.Elem()))
		it.store(addr, Ptr{o: o})
		d.decode(n, u.Elem(), Ptr{o: o})
	case *types.Struct:
		if n.kind == "null" {
			return
		}
		if n.kind != "obj" {
			d.fail("cannot unmarshal %s into %v", n.kind, t)
			return
		}
		for _, e := range n.obj {
			k, ok := e.key.(Str)
			if !ok {
				unsupported("unknown key for a struct field")
			}
			f := jsonField(u, k.s)
			if f == nil {
				if d.strict {
					d.fail("unknown field %q", k.s)
				}
				continue
			}
			p := addr
			ft := types.Type(u)
			for _, i := range f {
				st := ft.Underlying().(*types.Struct)
				p = Ptr{o: p.o, path: addPath(p.path, i)}
				ft = st.Field(i).Type()
			}
			d.decode(e.val, ft, p)
		}
	case *types.Map:
		if n.kind == "null" {
			it.store(addr, MapRef{})
			return
		}
		if n.kind != "obj" {
			d.fail("cannot unmarshal %s into %v", n.kind, t)
			return
		}
		if !isString(u.Key()) {
			unsupported("JSON map with key type %v", u.Key())
		}
		it.lift(it.load(addr), func(cur V) V {
			m := cur.(MapRef)
			if m.o == nil {
				m = MapRef{it.alloc("map", t, &MapVal{})}
				it.store(addr, m)
			}
			for _, e := range n.obj {
				o := it.alloc("json", u.Elem(), it.zero(u.Elem()))
				d.decode(e.val, u.Elem(), Ptr{o: o})
				it.mapUpdate(m, e.key, it.content(o))
			}
			return nil
		})
	case *types.Slice:
		if n.kind == "null" {
			it.store(addr, Slice{})
			return
		}
		if n.kind != "arr" {
			d.fail("cannot unmarshal %s into %v", n.kind, t)
			return
		}
		s := it.newSlice(u.Elem(), len(n.arr), len(n.arr))
		for i, e := range n.arr {
			d.decode(e, u.Elem(), Ptr{o: s.o, path: addPath(s.path, i)})
		}
		it.store(addr, s)
	case *types.Array:
		if n.kind == "null" {
			return
		}
		if n.kind != "arr" {
			d.fail("cannot unmarshal %s into %v", n.kind, t)
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			p := Ptr{o: addr.o, path: addPath(addr.path, i)}
			if i < len(n.arr) {
				d.decode(n.arr[i], u.Elem(), p)
			} else {
				it.store(p, it.zero(u.Elem()))
			}
		}
	case *types.Interface:
		if u.NumMethods() != 0 {
			if n.kind != "null" {
				d.fail("cannot unmarshal into interface %v", t)
			}
			return
		}
		it.store(addr, d.generic(n))
	case *types.Basic:
		if n.kind == "null" {
			return
		}
		switch {
		case u.Info()&types.IsFloat != 0 && n.kind == "num":
			it.store(addr, n.v)
		case u.Info()&types.IsString != 0 && n.kind == "str":
			it.store(addr, n.v)
		case u.Info()&types.IsBoolean != 0 && n.kind == "bool":
			it.store(addr, n.v)
		case u.Info()&types.IsInteger != 0 && n.kind == "num":
			if i, ok := toInt(n.v); ok && !(isUnsigned(u) && i < 0) {
				it.store(addr, Int(i))
			} else if r, ok := toPoly(n.v).constVal(); ok {
				_ = r
				d.fail("cannot unmarshal number into %v", t)
			} else {
				// unknown number: an unknown non-integral value is an error
				d.fail("cannot unmarshal number into %v", t)
			}
		default:
			d.fail("cannot unmarshal %s into %v", n.kind, t)
		}
	default:
		d.fail("unsupported type %v", t)
	}
}

func (d *jdec) generic(n *JNode) V {
	it := d.it
	anyT := types.Universe.Lookup("any").Type()
	switch n.kind {
	case "null":
		return Iface{}
	case "bool":
		return Iface{types.Typ[types.Bool], n.v}
	case "num":
		return Iface{types.Typ[types.Float64], n.v}
	case "str":
		return Iface{types.Typ[types.String], n.v}
	case "arr":
		var e []V
		for _, x := range n.arr {
			e = append(e, d.generic(x))
		}
		return Iface{types.NewSlice(anyT), it.sliceOf(anyT, e)}
	case "obj":
		mt := types.NewMap(types.Typ[types.String], anyT)
		m := MapRef{it.alloc("map", mt, &MapVal{})}
		for _, e := range n.obj {
			it.mapUpdate(m, e.key, d.generic(e.val))
		}
		return Iface{mt, m}
	}
	unsupported("document node %v", n.kind)
	return nil
}

// jsonField finds the struct field for a key: exact match first, then case-insensitive. The result is
// an index path through embedded structs.
func jsonField(s *types.Struct, key string) []int {
	type cand struct {
		path []int
		name string
	}
	var cands []cand
	var collect func(s *types.Struct, pre []int)
	collect = func(s *types.Struct, pre []int) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			name, _, _ := strings.Cut(tag, ",")
			if name == "-" && tag == "-" {
				continue
			}
			path := append(append([]int(nil), pre...), i)
			if f.Embedded() && name == "" {
				if st, ok := f.Type().Underlying().(*types.Struct); ok {
					collect(st, path)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			cands = append(cands, cand{path, name})
		}
	}
	collect(s, nil)
	var fold []int
	for _, c := range cands {
		if c.name == key {
			return c.path
		}
		if fold == nil && strings.EqualFold(c.name, key) {
			fold = c.path
		}
	}
	return fold
}

type jdecoder struct {
	doc    *JNode
	strict bool
	done   bool
}

func init() {
	m := models
	m["encoding/json.Unmarshal"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(data, v V) V {
			switch d := data.(type) {
			case *JData:
				return it.jsonDecode(d.n, v, false)
			case Slice:
				if d.len == 0 {
					return errValue(it, "json: unexpected end of JSON input", nil)
				}
			}
			unsupported("json.Unmarshal of %T", data)
			return nil
		})
	}
	m["encoding/json.Valid"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(l V) V {
			switch d := l.(type) {
			case *JData:
				return Bool(!hasBad(d.n))
			case Slice:
				if d.len == 0 {
					return Bool(false)
				}
			}
			unsupported("json.Valid of %T", l)
			return nil
		})
	}
	reader := func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(l V) V {
			d, ok := l.(*JData)
			if s, isStr := l.(*SymStr); isStr {
				d = jdataOf[s]
				ok = d != nil
			}
			if !ok {
				unsupported("reader over %T", l)
			}
			return Ptr{o: it.alloc("reader", nil, &NativeObj{name: "reader", data: d})}
		})
	}
	m["bytes.NewReader"] = reader
	m["bytes.NewBuffer"] = reader
	m["strings.NewReader"] = reader
	m["encoding/json.NewDecoder"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(l V) V {
			p, ok := l.(Iface).val.(Ptr)
			if !ok || p.o == nil {
				unsupported("decoder over %v", show(l))
			}
			n, ok := it.content(p.o).(*NativeObj)
			if !ok {
				unsupported("decoder over %v", show(l))
			}
			return Ptr{o: it.alloc("decoder", nil, &NativeObj{name: "decoder", data: &jdecoder{doc: n.data.(*JData).n}})}
		})
	}
	decoder := func(it *Interp, v V, f func(d *jdecoder, p Ptr) V) V {
		return it.lift(v, func(l V) V {
			p := l.(Ptr)
			return it.lift(it.content(p.o), func(c V) V { return f(c.(*NativeObj).data.(*jdecoder), p) })
		})
	}
	m["(*encoding/json.Decoder).DisallowUnknownFields"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return decoder(it, a[0], func(d *jdecoder, p Ptr) V {
			n := *d
			n.strict = true
			it.store(p, &NativeObj{name: "decoder", data: &n})
			return nil
		})
	}
	m["(*encoding/json.Decoder).UseNumber"] = func(it *Interp, fn *ssa.Function, a []V) V {
		unsupported("Decoder.UseNumber")
		return nil
	}
	m["(*encoding/json.Decoder).Decode"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return decoder(it, a[0], func(d *jdecoder, p Ptr) V {
			if d.done {
				return it.load(Ptr{o: it.ioEOF()})
			}
			n := *d
			n.done = true
			it.store(p, &NativeObj{name: "decoder", data: &n})
			return it.jsonDecode(d.doc, a[1], d.strict)
		})
	}
	m["(*encoding/json.Decoder).More"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return decoder(it, a[0], func(d *jdecoder, p Ptr) V { return Bool(!d.done) })
	}
	m["(*encoding/json.Decoder).Token"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return decoder(it, a[0], func(d *jdecoder, p Ptr) V {
			if d.done {
				return Tuple{[]V{Iface{}, it.load(Ptr{o: it.ioEOF()})}}
			}
			unsupported("Decoder.Token")
			return nil
		})
	}
	m["bytes.TrimSpace"] = func(it *Interp, fn *ssa.Function, a []V) V { return a[0] }
	m["bytes.Equal"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(x, y V) V {
			txt := func(v V) V {
				switch d := v.(type) {
				case *JData:
					return d.text()
				case Slice:
					return it.convert(v, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
				}
				unsupported("bytes.Equal on %T", v)
				return nil
			}
			return it.strEq(it.ctx(), txt(x), txt(y))
		})
	}
	m["bytes.HasPrefix"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(x, y V) V {
			d, ok := x.(*JData)
			p := it.convert(y, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String])
			s, ok2 := p.(Str)
			if !ok || !ok2 {
				unsupported("bytes.HasPrefix on %T", x)
			}
			if len(s.s) == 1 && d.n.firstByte() != 0 {
				return Bool(s.s[0] == d.n.firstByte())
			}
			unsupported("bytes.HasPrefix on documents")
			return nil
		})
	}
}

func (it *Interp) ioEOF() *Obj {
	pkg := it.prog.ssa.ImportedPackage("io")
	if pkg == nil {
		unsupported("package io not part of the program")
	}
	return it.global(pkg.Var("EOF"))
}
