package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions that are folded on constant arguments. On other arguments, a result
// that is a truth value or a text stays an unknown that only depends on the arguments.

var foldedPreds = map[string]*Atom{}

func foldKey(it *Interp, fn *ssa.Function, l []V) (string, bool) {
	key := fn.String()
	for _, x := range l {
		if s, ok := x.(Slice); ok {
			key += "|["
			for _, e := range it.elems(s) {
				k, ok := keyOf(e)
				if !ok {
					return "", false
				}
				key += k + ","
			}
			key += "]"
			continue
		}
		k, ok := keyOf(x)
		if !ok {
			return "", false
		}
		key += "|" + k
	}
	return key, true
}

// foldArg converts an abstract constant to a value of the given type.
func foldArg(it *Interp, v V, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(Str)
		if !ok {
			return r, false
		}
		r.SetString(s.s)
	case reflect.Bool:
		b, ok := v.(Bool)
		if !ok {
			return r, false
		}
		r.SetBool(bool(b))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, ok := toInt(v)
		if !ok {
			return r, false
		}
		r.SetInt(int64(i))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, ok := toInt(v)
		if !ok || i < 0 {
			return r, false
		}
		r.SetUint(uint64(i))
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return r, false
		}
		for _, e := range it.elems(s) {
			x, ok := foldArg(it, it.ctx().restrict(e), t.Elem())
			if !ok {
				return r, false
			}
			r = reflect.Append(r, x)
		}
	default:
		return r, false
	}
	return r, true
}

func foldResult(it *Interp, v reflect.Value, t types.Type) V {
	switch v.Kind() {
	case reflect.String:
		return Str{v.String()}
	case reflect.Bool:
		return Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return Int(v.Uint())
	case reflect.Float64:
		if f := v.Float(); !math.IsNaN(f) && !math.IsInf(f, 0) {
			return Num{floatPoly(f)}
		}
	case reflect.Slice:
		et := t.Underlying().(*types.Slice).Elem()
		s := it.newSlice(et, v.Len(), v.Len())
		var es []V
		for i := 0; i < v.Len(); i++ {
			es = append(es, foldResult(it, v.Index(i), et))
		}
		if len(es) > 0 {
			it.writeElems(s, 0, es)
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return Iface{}
		}
		return errValue(it, "conversion failure", nil)
	}
	unsupported("folding a result of type %v", t)
	return nil
}

func folded(f any) modelFn {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(it *Interp, fn *ssa.Function, args []V) V {
		var rec func(i int, l []V) V
		rec = func(i int, l []V) V {
			if i < len(args) {
				return it.lift(args[i], func(v V) V { return rec(i+1, append(l[:len(l):len(l)], v)) })
			}
			in := make([]reflect.Value, len(l))
			ok := true
			for i, v := range l {
				var o bool
				in[i], o = foldArg(it, v, ft.In(i))
				ok = ok && o
			}
			res := fn.Signature.Results()
			if ok {
				var out []reflect.Value
				if ft.IsVariadic() {
					out = fv.CallSlice(in)
				} else {
					out = fv.Call(in)
				}
				if len(out) == 1 {
					return foldResult(it, out[0], res.At(0).Type())
				}
				t := Tuple{}
				for i, o := range out {
					t.e = append(t.e, foldResult(it, o, res.At(i).Type()))
				}
				return t
			}
			if res.Len() == 1 {
				key, keyed := foldKey(it, fn, l)
				if b, isB := res.At(0).Type().Underlying().(*types.Basic); isB && b.Kind() == types.Bool && keyed {
					return atomBool(opaqueAtom(key))
				}
				if isString(res.At(0).Type()) {
					if !keyed {
						return &SymStr{name: "text", opaque: true}
					}
					s, ok := textMemo[key]
					if !ok {
						s = &SymStr{name: "text(" + fn.Name() + ")", opaque: true}
						textMemo[key] = s
					}
					return s
				}
			}
			unsupported("%v on values that aren't constant (called at %v)", fn.String(), it.pos())
			return nil
		}
		return rec(0, nil)
	}
}

// emit appends text to the builder or buffer behind a writer; other writers receive log output.
func emit(it *Interp, w, text V) {
	it.lift(w, func(l V) V {
		i, ok := l.(Iface)
		if ok && i.typ != nil {
			if p, isP := i.val.(Ptr); isP && p.o != nil {
				if n, named := deref(i.typ).(*types.Named); named && nativeKind(n) == "str" {
					cur := it.load(p)
					it.store(p, it.ctx().apply(func(c *Ctx, ls []V) V { return it.strOp(c, token.ADD, ls[0], ls[1]) }, cur, text))
					return nil
				}
			}
		}
		if ok && i.typ == nil {
			it.throw("write to a nil writer")
		}
		it.event("log", "write")
		return nil
	})
}

func deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func init() {
	m := models
	for name, f := range map[string]any{
		"strings.Split":         strings.Split,
		"strings.SplitN":        strings.SplitN,
		"strings.SplitAfter":    strings.SplitAfter,
		"strings.Fields":        strings.Fields,
		"strings.Index":         strings.Index,
		"strings.IndexByte":     strings.IndexByte,
		"strings.IndexRune":     strings.IndexRune,
		"strings.IndexAny":      strings.IndexAny,
		"strings.LastIndex":     strings.LastIndex,
		"strings.LastIndexByte": strings.LastIndexByte,
		"strings.Count":         strings.Count,
		"strings.Cut":           strings.Cut,
		"strings.CutPrefix":     strings.CutPrefix,
		"strings.CutSuffix":     strings.CutSuffix,
		"strings.ContainsRune":  strings.ContainsRune,
		"strings.ContainsAny":   strings.ContainsAny,
		"strings.Replace":       strings.Replace,
		"strings.ReplaceAll":    strings.ReplaceAll,
		"strings.Trim":          strings.Trim,
		"strings.TrimLeft":      strings.TrimLeft,
		"strings.TrimRight":     strings.TrimRight,
		"strings.Repeat":        strings.Repeat,
		"strings.Title":         strings.Title, //nolint:staticcheck // modelled, not used
		"strings.ToTitle":       strings.ToTitle,
		"strconv.Quote":         strconv.Quote,
		"strconv.FormatBool":    strconv.FormatBool,
		"strconv.Atoi":          strconv.Atoi,
		"strconv.ParseInt":      strconv.ParseInt,
		"strconv.ParseUint":     strconv.ParseUint,
		"strconv.ParseFloat":    strconv.ParseFloat,
		"strconv.ParseBool":     strconv.ParseBool,
		"strconv.Unquote":       strconv.Unquote,
		"unicode.IsUpper":       unicode.IsUpper,
		"unicode.IsLower":       unicode.IsLower,
		"unicode.IsLetter":      unicode.IsLetter,
		"unicode.IsDigit":       unicode.IsDigit,
		"unicode.IsSpace":       unicode.IsSpace,
		"unicode.ToLower":       unicode.ToLower,
		"unicode.ToUpper":       unicode.ToUpper,
	} {
		m[name] = folded(f)
	}
	m["fmt.Sprintln"] = func(it *Interp, fn *ssa.Function, a []V) V { return sprint(it, a[0], fmt.Sprintln) }
	m["fmt.Sprint"] = func(it *Interp, fn *ssa.Function, a []V) V { return sprint(it, a[0], fmt.Sprint) }
	m["fmt.Fprintf"] = func(it *Interp, fn *ssa.Function, a []V) V {
		emit(it, a[0], it.lift(a[2], func(s V) V { return it.format(a[1], it.elems(s.(Slice))) }))
		return zeroResults(it, fn)
	}
	for n, f := range map[string]func(...any) string{"fmt.Fprint": fmt.Sprint, "fmt.Fprintln": fmt.Sprintln} {
		m[n] = func(it *Interp, fn *ssa.Function, a []V) V {
			emit(it, a[0], sprint(it, a[1], f))
			return zeroResults(it, fn)
		}
	}
	m["io.WriteString"] = func(it *Interp, fn *ssa.Function, a []V) V {
		emit(it, a[0], a[1])
		return zeroResults(it, fn)
	}
	for _, n := range []string{"WriteString", "WriteByte", "WriteRune", "String", "Len", "Reset", "Grow"} {
		m["(*bytes.Buffer)."+n] = m["(*strings.Builder)."+n]
	}
	// sort.Sort: the result of any correct algorithm is that of exchanging neighbours
	sorter := func(it *Interp, fn *ssa.Function, a []V) V {
		it.lift(a[0], func(l V) V {
			i := l.(Iface)
			if i.typ == nil {
				it.throw("sort of nil")
			}
			method := func(name string, args ...V) V {
				f := it.prog.methodByName(i.typ, name)
				if f == nil {
					unsupported("no method %v of %v", name, i.typ)
				}
				return it.callFn(f, append([]V{i.val}, args...), nil, nil)
			}
			it.lift(method("Len"), func(n V) V {
				for i := 1; i < mustInt(n); i++ {
					for j := i; j > 0; j-- {
						it.lift(method("Less", Int(j), Int(j-1)), func(b V) V {
							if bool(b.(Bool)) {
								method("Swap", Int(j), Int(j-1))
							}
							return nil
						})
					}
				}
				return nil
			})
			return nil
		})
		return nil
	}
	// synchronisation: one execution at a time, so that only the effects of functions called matter
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		m[n] = noop
	}
	m["(*sync.Once).Do"] = func(it *Interp, fn *ssa.Function, a []V) V {
		quiet(it, func() {
			it.lift(it.load(a[0]), func(l V) V {
				if _, done := l.(Str); !done {
					it.store(a[0], Str{"done"})
					it.callValue(a[1], nil, nil)
				}
				return nil
			})
		})
		return nil
	}
	once := func(it *Interp, fn *ssa.Function, a []V) V {
		cell := it.alloc("sync.OnceValue", types.NewTuple(), Tuple{})
		f := a[0]
		return Func{nat: &NativeFn{name: "sync.OnceValue", fn: func(it *Interp, _ []V) V {
			var r V
			quiet(it, func() {
				r = it.lift(it.load(Ptr{o: cell}), func(l V) V {
					if t := l.(Tuple); len(t.e) == 1 {
						return t.e[0]
					}
					r := it.callValue(f, nil, nil)
					it.store(Ptr{o: cell}, Tuple{[]V{r}})
					return r
				})
			})
			return r
		}}}
	}
	m["sync.OnceValue"] = once
	m["sync.OnceValues"] = once
	m["sync.OnceFunc"] = once
	m["sort.Sort"] = sorter
	m["sort.Stable"] = sorter
}

// sprint joins the arguments like the given function; constant only.
func sprint(it *Interp, args V, f func(...any) string) V {
	return it.lift(args, func(s V) V {
		es := it.elems(s.(Slice))
		var conc []any
		for _, e := range es {
			t := it.format(Str{"%v"}, []V{e})
			k, ok := t.(Str)
			if !ok {
				return &SymStr{name: "text", opaque: true}
			}
			i, _ := it.ctx().restrict(e).(Iface)
			if i.typ != nil && !isString(i.typ) {
				if n, ok := i.val.(Int); ok {
					conc = append(conc, int(n))
					continue
				}
				conc = append(conc, fmt.Errorf("%s", k.s))
				continue
			}
			conc = append(conc, k.s)
		}
		return Str{f(conc...)}
	})
}

// quiet runs f without recording the objects it uses; the caller is synchronised.
func quiet(it *Interp, f func()) {
	save := it.access
	defer func() { it.access = save }()
	it.access = nil
	f()
}
