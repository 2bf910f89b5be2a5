package main

// Models of library functions: errors, fmt, log, math, strings, sort, regexp, testing.

import (
	"fmt"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(it *Interp, fn *ssa.Function, args []V) V

var models = map[string]modelFn{}

func lookupModel(fn *ssa.Function) modelFn {
	name := fn.String()
	if m, ok := models[name]; ok {
		return m
	}
	if o := fn.Origin(); o != nil {
		if m, ok := models[o.String()]; ok {
			return m
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/lubgr/deflect") {
		return func(*Interp, *ssa.Function, []V) V { return nil }
	}
	return nil
}

// NativeObj implements an interface of the analysed program natively (stubs, model objects).
type NativeObj struct {
	name       string
	methods    map[string]func(it *Interp, args []V) V
	implements func(*types.Interface) bool
	data       any
}

var nativeTypes = map[string]*types.Named{}

func nativeNamed(name string) types.Type {
	if t, ok := nativeTypes[name]; ok {
		return t
	}
	pkg := types.NewPackage("verifsa/native", "native")
	t := types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), types.NewStruct(nil, nil), nil)
	nativeTypes[name] = t
	return t
}

func isNativeType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "verifsa/native"
}

func nativeIface(n *NativeObj) Iface { return Iface{typ: nativeNamed(n.name), val: n} }

// errors ---------------------------------------------------------------------

type errData struct {
	msg    string
	unwrap V   // for errors.Unwrap; nil Iface if none
	wraps  []V // everything in the tree
	text   V
	pos    string
}

func errValue(it *Interp, msg string, d *errData) V {
	if d == nil {
		d = &errData{unwrap: Iface{}}
	}
	d.msg = msg
	d.pos = it.pos()
	if d.text == nil {
		d.text = &SymStr{name: "error text", opaque: true}
	}
	n := &NativeObj{name: "error", data: d}
	n.methods = map[string]func(*Interp, []V) V{
		"Error":  func(*Interp, []V) V { return d.text },
		"String": func(*Interp, []V) V { return d.text },
	}
	n.implements = func(t *types.Interface) bool {
		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() != "Error" {
				return false
			}
		}
		return true
	}
	return nativeIface(n)
}

// isNil yields the condition under which an interface value is nil.
func isNil(c *Ctx, v V) V {
	return c.apply(func(_ *Ctx, l []V) V {
		switch x := l[0].(type) {
		case Iface:
			return Bool(x.typ == nil)
		case Slice:
			return Bool(x.o == nil)
		case Ptr:
			return Bool(x.o == nil)
		case MapRef:
			return Bool(x.o == nil)
		case Func:
			return Bool(x == (Func{}))
		}
		unsupported("nil comparison of %T", l[0])
		return nil
	}, v)
}

func (it *Interp) variadic(v V) []V {
	s, ok := it.ctx().restrict(v).(Slice)
	if !ok {
		// gated slices are resolved by the caller
		unsupported("gated variadic argument list")
	}
	return it.elems(s)
}

func errJoin(it *Interp, args []V) V {
	c := it.ctx()
	any := V(Bool(false))
	for _, a := range args {
		any = c.or(any, c.not(isNil(c, a)))
	}
	if b, ok := any.(Bool); ok && !bool(b) {
		return Iface{}
	}
	e := errValue(it, "errors.Join", &errData{unwrap: Iface{}, wraps: args})
	return c.ite(any, e, Iface{})
}

// text formatting -------------------------------------------------------------

var textMemo = map[string]*SymStr{}

func keyOf(v V) (string, bool) {
	switch x := v.(type) {
	case Str:
		return strconv.Quote(x.s), true
	case Int:
		return strconv.FormatInt(int64(x), 10), true
	case Bool:
		return fmt.Sprint(bool(x)), true
	case *SymStr:
		return fmt.Sprintf("sym%p", x), true
	case Num:
		return "n" + x.p.Key(), true
	case Iface:
		if x.typ == nil {
			return "nil", true
		}
		k, ok := keyOf(x.val)
		return x.typ.String() + ":" + k, ok
	case Struct:
		s := "{"
		for _, f := range x.f {
			k, ok := keyOf(f)
			if !ok {
				return "", false
			}
			s += k + ","
		}
		return s + "}", true
	}
	return "", false
}

// format evaluates a format string on constant arguments, otherwise yields an unknown text.
func (it *Interp) format(f V, args []V) V {
	return it.lift(f, func(fl V) V {
		fs, ok := fl.(Str)
		if !ok {
			return &SymStr{name: "text", opaque: true}
		}
		return it.formatArgs(fs.s, nil, args)
	})
}

func (it *Interp) formatArgs(f string, done, rest []V) V {
	for len(rest) > 0 {
		if _, gated := it.ctx().restrict(rest[0]).(*Ite); gated {
			// keep formatted text coarse for gated arguments
			return &SymStr{name: "text", opaque: true}
		}
		done = append(done, it.ctx().restrict(rest[0]))
		rest = rest[1:]
	}
	var conc []any
	ok := true
	for _, a := range done {
		i, isI := a.(Iface)
		if !isI || i.typ == nil {
			conc = append(conc, nil)
			continue
		}
		v := i.val
		if fn := it.stringMethod(i); fn != nil {
			v = it.ctx().restrict(it.callFn(fn, []V{i.val}, nil, nil))
		}
		g, gok := it.goValue(v, i.typ)
		conc = append(conc, g)
		ok = ok && gok
	}
	if ok && !strings.Contains(f, "%w") && !strings.Contains(f, "%#") && !strings.Contains(f, "%+") && !strings.Contains(f, "%T") {
		return Str{fmt.Sprintf(f, conc...)}
	}
	key := f
	for _, a := range done {
		k, kok := keyOf(a)
		if !kok {
			return &SymStr{name: "text", opaque: true}
		}
		key += "|" + k
	}
	if s, ok := textMemo[key]; ok {
		return s
	}
	s := &SymStr{name: "text(" + f + ")", opaque: true}
	textMemo[key] = s
	return s
}

// goStruct prints like a struct.
type goStruct []any

func (g goStruct) Format(s fmt.State, verb rune) {
	io.WriteString(s, "{")
	for i, x := range g {
		if i > 0 {
			io.WriteString(s, " ")
		}
		fmt.Fprintf(s, fmt.FormatString(s, verb), x)
	}
	io.WriteString(s, "}")
}

// goValue converts a constant to a Go value that is formatted the same way.
func (it *Interp) goValue(v V, t types.Type) (any, bool) {
	var list []V
	var et types.Type
	switch x := v.(type) {
	case Str:
		return x.s, true
	case Int:
		return int64(x), true
	case Bool:
		return bool(x), true
	case Slice:
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		list, et = it.elems(x), u.Elem()
	case Array:
		u, ok := t.Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		list, et = x.e, u.Elem()
	case Struct:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		g := goStruct{}
		for i, f := range x.f {
			e, ok := it.goElem(f, u.Field(i).Type())
			if !ok {
				return nil, false
			}
			g = append(g, e)
		}
		return g, true
	default:
		return nil, false
	}
	if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return nil, false
	}
	r := []any{}
	for _, e := range list {
		g, ok := it.goElem(e, et)
		if !ok {
			return nil, false
		}
		r = append(r, g)
	}
	return r, true
}

func (it *Interp) goElem(v V, t types.Type) (any, bool) {
	v = it.ctx().restrict(v)
	if i, ok := v.(Iface); ok {
		if i.typ == nil {
			return nil, true
		}
		v, t = i.val, i.typ
	}
	if fn := it.stringMethod(Iface{typ: t, val: v}); fn != nil {
		v = it.ctx().restrict(it.callFn(fn, []V{v}, nil, nil))
	}
	return it.goValue(v, t)
}

func (it *Interp) stringMethod(i Iface) *ssa.Function {
	n, ok := i.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !it.prog.isRepoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	fn := it.prog.methodByName(n, "String")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	return fn
}

func opaqueText(it *Interp, fn *ssa.Function, args []V) V {
	return &SymStr{name: "text", opaque: true}
}

func noop(it *Interp, fn *ssa.Function, args []V) V { return nil }

// math -------------------------------------------------------------------------

func num1(f func(c *Ctx, p *Poly) V) modelFn {
	return func(it *Interp, fn *ssa.Function, args []V) V {
		return it.ctx().apply(func(c *Ctx, l []V) V { return f(c, toPoly(l[0])) }, args[0])
	}
}

func num2(f func(c *Ctx, p, q *Poly) V) modelFn {
	return func(it *Interp, fn *ssa.Function, args []V) V {
		return it.ctx().apply(func(c *Ctx, l []V) V { return f(c, toPoly(l[0]), toPoly(l[1])) }, args[0], args[1])
	}
}

type trig struct{ s, c *NAtom }

var trigs = map[string]*trig{}

// trigOf returns sine and cosine of a polynomial angle.
func trigOf(p *Poly) (s, c *Poly) {
	if p.isZeroSyn() {
		return zeroPoly, intPoly(1)
	}
	if t, ok := p.single(); ok && len(t.m) == 1 && t.m[0].e == 1 && t.c.Cmp(big.NewRat(1, 1)) == 0 {
		if a := natoms[t.m[0].a]; a.sinOf != nil {
			return a.sinOf, a.cosOf
		}
	}
	o := 1
	q := p
	if p.lead().c.Sign() < 0 {
		o = -1
		q = p.Neg()
	}
	t, ok := trigs[q.Key()]
	if !ok {
		t = &trig{c: newAtom("cos(" + q.String() + ")"), s: newAtom("sin(" + q.String() + ")")}
		t.s.sq = intPoly(1).Sub(atomPoly(t.c).Mul(atomPoly(t.c)))
		trigs[q.Key()] = t
	}
	s = atomPoly(t.s)
	if o < 0 {
		s = s.Neg()
	}
	return s, atomPoly(t.c)
}

var atan2Atoms = map[string]*NAtom{}

func init() {
	m := models
	// errors, fmt, log
	m["errors.New"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return errValue(it, "errors.New", &errData{unwrap: Iface{}, text: a[0]})
	}
	m["fmt.Errorf"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(f, s V) V {
			args := append([]V(nil), it.elems(s.(Slice))...)
			d := &errData{unwrap: Iface{}}
			msg := "fmt.Errorf"
			if fs, ok := f.(Str); ok {
				msg = fs.s
				verbs := formatVerbs(fs.s)
				var ws []V
				for i, v := range verbs {
					if v == 'w' && i < len(args) {
						ws = append(ws, args[i])
					}
				}
				d.wraps = ws
				if len(ws) == 1 {
					d.unwrap = ws[0]
				}
			} else {
				d.wraps = args
			}
			return errValue(it, msg, d)
		})
	}
	m["errors.Join"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(s V) V { return errJoin(it, it.elems(s.(Slice))) })
	}
	m["errors.Unwrap"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			i, ok := l[0].(Iface)
			if !ok || i.typ == nil {
				return Iface{}
			}
			if n, ok := i.val.(*NativeObj); ok {
				if d, ok := n.data.(*errData); ok {
					return d.unwrap
				}
			}
			return Iface{}
		}, a[0])
	}
	m["errors.Is"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(c *Ctx, l []V) V { return errIs(it, c, l[0], l[1]) }, a[0], a[1])
	}
	m["fmt.Sprintf"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[1], func(s V) V { return it.format(a[0], it.elems(s.(Slice))) })
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		n := n
		m[n] = func(it *Interp, fn *ssa.Function, a []V) V {
			it.event("log", n)
			return zeroResults(it, fn)
		}
	}
	for _, n := range []string{"log.Panicf", "log.Panic", "log.Panicln"} {
		n := n
		m[n] = func(it *Interp, fn *ssa.Function, a []V) V { it.throw("%s", n); return nil }
	}
	for _, n := range []string{"log.Fatalf", "log.Fatal", "log.Fatalln", "os.Exit"} {
		n := n
		m[n] = func(it *Interp, fn *ssa.Function, a []V) V { it.throw("process exit through %s", n); return nil }
	}
	// strings
	constStr := func(f func(a []string) any) modelFn {
		return func(it *Interp, fn *ssa.Function, args []V) V {
			return it.ctx().apply(func(_ *Ctx, l []V) V {
				var s []string
				for _, x := range l {
					k, ok := x.(Str)
					if !ok {
						rt := fn.Signature.Results().At(0).Type()
						if isString(rt) {
							return &SymStr{name: "text", opaque: true}
						}
						key := fn.String()
						for _, y := range l {
							key += "|" + strKey(y)
						}
						return atomBool(opaqueAtom(key))
					}
					s = append(s, k.s)
				}
				switch r := f(s).(type) {
				case bool:
					return Bool(r)
				case string:
					return Str{r}
				case int:
					return Int(r)
				}
				return nil
			}, args...)
		}
	}
	m["strings.HasPrefix"] = constStr(func(a []string) any { return strings.HasPrefix(a[0], a[1]) })
	m["strings.HasSuffix"] = constStr(func(a []string) any { return strings.HasSuffix(a[0], a[1]) })
	m["strings.Contains"] = constStr(func(a []string) any { return strings.Contains(a[0], a[1]) })
	m["strings.EqualFold"] = constStr(func(a []string) any { return strings.EqualFold(a[0], a[1]) })
	m["strings.ToLower"] = constStr(func(a []string) any { return strings.ToLower(a[0]) })
	m["strings.ToUpper"] = constStr(func(a []string) any { return strings.ToUpper(a[0]) })
	m["strings.TrimSpace"] = constStr(func(a []string) any { return strings.TrimSpace(a[0]) })
	m["strings.TrimPrefix"] = constStr(func(a []string) any { return strings.TrimPrefix(a[0], a[1]) })
	m["strings.TrimSuffix"] = constStr(func(a []string) any { return strings.TrimSuffix(a[0], a[1]) })
	m["strings.Compare"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(c *Ctx, l []V) V {
			return c.ite(it.strOp(c, token.LSS, l[0], l[1]), Int(-1), c.ite(it.strEq(c, l[0], l[1]), Int(0), Int(1)))
		}, a[0], a[1])
	}
	m["strings.Join"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(s, sep V) V {
			es := it.elems(s.(Slice))
			var parts []string
			for _, e := range es {
				k, ok := e.(Str)
				if !ok {
					return &SymStr{name: "text", opaque: true}
				}
				parts = append(parts, k.s)
			}
			if k, ok := sep.(Str); ok {
				return Str{strings.Join(parts, k.s)}
			}
			return &SymStr{name: "text", opaque: true}
		})
	}
	m["strconv.Itoa"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			if i, ok := toInt(l[0]); ok {
				return Str{strconv.Itoa(i)}
			}
			return &SymStr{name: "text", opaque: true}
		}, a[0])
	}
	m["strconv.FormatInt"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			i, ok1 := toInt(l[0])
			b, ok2 := toInt(l[1])
			if ok1 && ok2 {
				return Str{strconv.FormatInt(int64(i), b)}
			}
			return &SymStr{name: "text", opaque: true}
		}, a[0], a[1])
	}
	m["strconv.FormatUint"] = m["strconv.FormatInt"]
	m["strconv.FormatFloat"] = opaqueText
	sb := func(it *Interp, fn *ssa.Function, a []V) V {
		p := a[0]
		it.lift(p, func(l V) V {
			if l.(Ptr).o == nil {
				it.throw("nil strings.Builder")
			}
			cur := it.load(l)
			add := a[1]
			it.store(l, it.ctx().apply(func(c *Ctx, ls []V) V {
				if i, ok := ls[1].(Int); ok {
					ls[1] = Str{string(rune(i))}
				}
				return it.strOp(c, token.ADD, ls[0], ls[1])
			}, cur, add))
			return nil
		})
		return zeroResults(it, fn)
	}
	m["(*strings.Builder).WriteString"] = sb
	m["(*strings.Builder).WriteByte"] = sb
	m["(*strings.Builder).WriteRune"] = sb
	m["(*strings.Builder).String"] = func(it *Interp, fn *ssa.Function, a []V) V { return it.load(a[0]) }
	m["(*strings.Builder).Len"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			if s, ok := l[0].(Str); ok {
				return Int(len(s.s))
			}
			return it.symLen(l[0].(*SymStr))
		}, it.load(a[0]))
	}
	m["(*strings.Builder).Grow"] = noop
	m["(*strings.Builder).Reset"] = func(it *Interp, fn *ssa.Function, a []V) V { it.store(a[0], Str{""}); return nil }
	// math
	m["math.Abs"] = num1(func(c *Ctx, p *Poly) V { return absV(c, p) })
	m["math.Sqrt"] = num1(func(c *Ctx, p *Poly) V {
		if s, ok := c.sign(p); ok && s < 0 {
			unsupported("square root of a negative number")
		}
		return Num{p.Sqrt(c.sign)}
	})
	m["math.Hypot"] = num2(func(c *Ctx, p, q *Poly) V { return Num{p.Mul(p).Add(q.Mul(q)).Sqrt(c.sign)} })
	m["math.Cbrt"] = num1(func(c *Ctx, p *Poly) V { unsupported("math.Cbrt"); return nil })
	m["math.Pow"] = num2(func(c *Ctx, p, q *Poly) V {
		r, ok := q.constVal()
		if !ok {
			unsupported("math.Pow with symbolic exponent")
		}
		if r.IsInt() {
			return Num{p.Pow(int(r.Num().Int64()))}
		}
		if new(big.Rat).Mul(r, big.NewRat(2, 1)).IsInt() {
			return Num{p.Sqrt(c.sign).Pow(int(new(big.Rat).Mul(r, big.NewRat(2, 1)).Num().Int64()))}
		}
		unsupported("math.Pow with exponent %v", r)
		return nil
	})
	m["math.Cos"] = num1(func(c *Ctx, p *Poly) V { _, k := trigOf(p); return Num{k} })
	m["math.Sin"] = num1(func(c *Ctx, p *Poly) V { k, _ := trigOf(p); return Num{k} })
	m["math.Sincos"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			s, c := trigOf(toPoly(l[0]))
			return Tuple{[]V{Num{s}, Num{c}}}
		}, a[0])
	}
	m["math.Tan"] = num1(func(c *Ctx, p *Poly) V { s, k := trigOf(p); return Num{s.Div(k)} })
	m["math.Atan2"] = num2(func(c *Ctx, y, x *Poly) V {
		n := x.Mul(x).Add(y.Mul(y)).Sqrt(c.sign)
		if n.isZeroSyn() {
			return Num{zeroPoly}
		}
		s, k := y.Div(n), x.Div(n)
		key := s.Key() + "|" + k.Key()
		a, ok := atan2Atoms[key]
		if !ok {
			a = newAtom("atan2(" + y.String() + "," + x.String() + ")")
			a.sinOf, a.cosOf = s, k
			atan2Atoms[key] = a
		}
		return Num{atomPoly(a)}
	})
	m["math.Max"] = num2(func(c *Ctx, p, q *Poly) V { return c.ite(c.lt0(p.Sub(q)), Num{q}, Num{p}) })
	m["math.Min"] = num2(func(c *Ctx, p, q *Poly) V { return c.ite(c.lt0(p.Sub(q)), Num{p}, Num{q}) })
	m["math.IsNaN"] = num1(func(c *Ctx, p *Poly) V { return Bool(false) })
	m["math.IsInf"] = func(it *Interp, fn *ssa.Function, a []V) V { return Bool(false) }
	m["math.FMA"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.ctx().apply(func(_ *Ctx, l []V) V { return Num{toPoly(l[0]).Mul(toPoly(l[1])).Add(toPoly(l[2]))} }, a...)
	}
	m["math.Signbit"] = num1(func(c *Ctx, p *Poly) V { return c.lt0(p) })
	m["math.Copysign"] = num2(func(c *Ctx, p, q *Poly) V {
		return c.apply(func(c *Ctx, l []V) V {
			if l[1].(Bool) {
				return Num{toPoly(l[0]).Neg()}
			}
			return l[0]
		}, absV(c, p), c.lt0(q))
	})
	// sort
	sortSlice := func(it *Interp, fn *ssa.Function, a []V) V {
		it.lift(a[0], func(l V) V {
			return it.lift(l.(Iface).val, func(l V) V {
				s := l.(Slice)
				for i := 1; i < s.len; i++ {
					for j := i; j > 0; j-- {
						less := it.callValue(a[1], []V{Int(j), Int(j - 1)}, nil)
						es := it.elems(s)
						c := it.ctx()
						x, y := es[j-1], es[j]
						it.writeElems(s, j-1, []V{c.ite(less, y, x), c.ite(less, x, y)})
					}
				}
				return nil
			})
		})
		return nil
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	sortBasic := func(it *Interp, fn *ssa.Function, a []V) V {
		et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		it.lift(a[0], func(l V) V {
			s := l.(Slice)
			for i := 1; i < s.len; i++ {
				for j := i; j > 0; j-- {
					es := it.elems(s)
					x, y := es[j-1], es[j]
					less := it.binop(token.LSS, et, y, x, types.Typ[types.Bool])
					c := it.ctx()
					it.writeElems(s, j-1, []V{c.ite(less, y, x), c.ite(less, x, y)})
				}
			}
			return nil
		})
		return nil
	}
	m["sort.Strings"] = sortBasic
	m["sort.Ints"] = sortBasic
	m["sort.Float64s"] = sortBasic
	// slices.Sort and friends: semantics is independent of the algorithm
	m["maps.Clone"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(l V) V {
			if r := l.(MapRef); r.o != nil {
				return it.lift(it.content(r.o), func(cv V) V {
					return MapRef{it.alloc("map", fn.Signature.Results().At(0).Type(), &MapVal{ents: cv.(*MapVal).ents})}
				})
			}
			return l
		})
	}
	m["slices.Sort"] = sortBasicGeneric
	m["slices.SortFunc"] = sortFuncGeneric
	m["slices.SortStableFunc"] = sortFuncGeneric
	m["runtime.KeepAlive"] = noop
}

func sortBasicGeneric(it *Interp, fn *ssa.Function, a []V) V {
	et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
	it.lift(a[0], func(l V) V {
		s := l.(Slice)
		less := func(x, y V) V {
			return it.binop(token.LSS, et, x, y, types.Typ[types.Bool])
		}
		if es := append([]V(nil), it.elems(s)...); len(es) > 16 && mergeSort(es, less) {
			it.writeElems(s, 0, es)
			return nil
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				es := it.elems(s)
				x, y := es[j-1], es[j]
				less := it.binop(token.LSS, et, y, x, types.Typ[types.Bool])
				c := it.ctx()
				it.writeElems(s, j-1, []V{c.ite(less, y, x), c.ite(less, x, y)})
			}
		}
		return nil
	})
	return nil
}

func sortFuncGeneric(it *Interp, fn *ssa.Function, a []V) V {
	it.lift(a[0], func(l V) V {
		s := l.(Slice)
		less := func(x, y V) V {
			return it.binop(token.LSS, types.Typ[types.Int], it.callValue(a[1], []V{x, y}, nil), Int(0), types.Typ[types.Bool])
		}
		if es := append([]V(nil), it.elems(s)...); len(es) > 16 && mergeSort(es, less) {
			it.writeElems(s, 0, es)
			return nil
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				es := it.elems(s)
				x, y := es[j-1], es[j]
				less := less(y, x)
				c := it.ctx()
				es = it.elems(s)
				x, y = es[j-1], es[j]
				it.writeElems(s, j-1, []V{c.ite(less, y, x), c.ite(less, x, y)})
			}
		}
		return nil
	})
	return nil
}

// mergeSort is for comparisons that don't depend on anything symbolic; it reports whether that is the case.
func mergeSort(es []V, less func(x, y V) V) bool {
	if len(es) < 2 {
		return true
	}
	l, r := append([]V(nil), es[:len(es)/2]...), append([]V(nil), es[len(es)/2:]...)
	if !mergeSort(l, less) || !mergeSort(r, less) {
		return false
	}
	for i := range es {
		second := len(l) == 0
		if len(l) > 0 && len(r) > 0 {
			b, ok := less(r[0], l[0]).(Bool)
			if !ok {
				return false
			}
			second = bool(b)
		}
		if second {
			es[i], r = r[0], r[1:]
		} else {
			es[i], l = l[0], l[1:]
		}
	}
	return true
}

func absV(c *Ctx, p *Poly) V {
	if s, ok := c.sign(p); ok {
		if s < 0 {
			return Num{p.Neg()}
		}
		return Num{p}
	}
	return c.ite(c.lt0(p), Num{p.Neg()}, Num{p})
}

func errIs(it *Interp, c *Ctx, e, target V) V {
	i, ok := e.(Iface)
	if !ok {
		return c.apply(func(c *Ctx, l []V) V { return errIs(it, c, l[0], l[1]) }, e, target)
	}
	r := it.eqLeaf(c, e, target)
	if i.typ == nil {
		return r
	}
	for _, w := range unwrapped(it, i) {
		r = c.or(r, c.apply(func(c *Ctx, l []V) V {
			if l[0].(Iface).typ == nil {
				return Bool(false)
			}
			return errIs(it, c, l[0], l[1])
		}, w, target))
	}
	return r
}

// formatVerbs lists the verbs of a format string in argument order.
func formatVerbs(f string) []byte {
	var r []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			r = append(r, f[i])
		}
	}
	return r
}

func stdGlobal(it *Interp, g *ssa.Global) (V, bool) { return nil, false }
