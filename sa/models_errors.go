package main

// errors.As, and the Unwrap methods of error types of the repository.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// unwrapped lists the errors directly below an error.
func unwrapped(it *Interp, i Iface) []V {
	if i.typ == nil {
		return nil
	}
	if n, ok := i.val.(*NativeObj); ok {
		if d, ok := n.data.(*errData); ok {
			return d.wraps
		}
		return nil
	}
	fn := it.prog.methodByName(i.typ, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	v := it.ctx().restrict(it.callFn(fn, []V{i.val}, nil, nil))
	if s, ok := v.(Slice); ok {
		return it.elems(s)
	}
	return []V{v}
}

func init() {
	models["errors.As"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(e, target V) V {
			ti, ok := target.(Iface)
			if !ok || ti.typ == nil {
				it.throw("errors: target cannot be nil")
			}
			p, ok := ti.val.(Ptr)
			if !ok || p.o == nil {
				it.throw("errors: target must be a non-nil pointer")
			}
			t := pointee(ti.typ)
			var find func(e V) V
			find = func(e V) V {
				return it.lift(e, func(e V) V {
					i := e.(Iface)
					if i.typ == nil {
						return Bool(false)
					}
					hit := false
					if iface, ok := t.Underlying().(*types.Interface); ok {
						if hit = it.implements(i, iface); hit {
							it.store(p, i)
						}
					} else if hit = types.Identical(i.typ, t); hit {
						it.store(p, i.val)
					}
					if hit {
						return Bool(true)
					}
					subs := unwrapped(it, i)
					if n, ok := i.val.(*NativeObj); ok && len(subs) == 0 {
						// an error of a library may have any type of a library
						if nt, ok := pointee(t).(*types.Named); ok && nt.Obj().Pkg() != nil && !it.prog.isRepoPkg(nt.Obj().Pkg().Path()) {
							return it.lift(atomBool(opaqueAtom(fmt.Sprintf("errors.As(%p, %v)", n, t))), func(b V) V {
								if bool(b.(Bool)) {
									it.store(p, it.someValue(t))
								}
								return b
							})
						}
					}
					var any func(subs []V) V
					any = func(subs []V) V {
						if len(subs) == 0 {
							return Bool(false)
						}
						return it.lift(find(subs[0]), func(b V) V {
							if bool(b.(Bool)) {
								return b
							}
							return any(subs[1:])
						})
					}
					return any(subs)
				})
			}
			return find(e)
		})
	}
}

// someValue is an unknown value of a simple type.
func (it *Interp) someValue(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &SymStr{name: "text", opaque: true}
		case u.Info()&types.IsNumeric != 0:
			return Num{atomPoly(newAtom("some number"))}
		case u.Info()&types.IsBoolean != 0:
			return atomBool(opaqueAtom(fmt.Sprintf("some condition %d", objCount)))
		}
	case *types.Pointer:
		return it.ptrTo("some "+typeKey(u.Elem()), u.Elem(), it.someValue(u.Elem()))
	case *types.Struct:
		s := Struct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, it.someValue(u.Field(i).Type()))
		}
		return s
	}
	return it.zero(t)
}
