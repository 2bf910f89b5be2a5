package main

import (
	"golang.org/x/tools/go/ssa"
)

// The vector kernels of gonum are written in assembly, so they are modelled.
func init() {
	const pkg = "gonum.org/v1/gonum/internal/asm/f64."
	m := models
	// vec models a kernel that stores f(k) at every index of the destination.
	reg := func(name string, f func(it *Interp, a []V, get func(v V) []V, put func(dst V, vals []V)) V) {
		m[pkg+name] = func(it *Interp, fn *ssa.Function, args []V) V {
			var rec func(i int, l []V) V
			rec = func(i int, l []V) V {
				if i == len(args) {
					get := func(v V) []V { return append([]V(nil), it.elems(v.(Slice))...) }
					put := func(dst V, vals []V) {
						s := dst.(Slice)
						if s.len < len(vals) {
							it.throw("index out of range in %v", name)
						}
						if len(vals) > 0 {
							it.writeElems(s, 0, vals)
						}
					}
					return f(it, l, get, put)
				}
				if _, isSlice := it.ctx().restrict(args[i]).(Slice); isSlice || isGatedSlice(it, args[i]) {
					return it.lift(args[i], func(v V) V { return rec(i+1, append(l[:len(l):len(l)], v)) })
				}
				return rec(i+1, append(l[:len(l):len(l)], args[i]))
			}
			return rec(0, nil)
		}
	}
	at := func(it *Interp, s []V, i int) V {
		if i >= len(s) {
			it.throw("index out of range in a vector kernel")
		}
		return s[i]
	}
	binary := func(op func(it *Interp, x, y V) V) func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		return func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
			x, y := get(a[0]), get(a[1])
			for i := range y {
				y[i] = op(it, at(it, x, i), y[i])
			}
			put(a[0], y)
			return nil
		}
	}
	reg("Add", binary((*Interp).add))
	reg("Div", binary((*Interp).div))
	reg("DivTo", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x, y := get(a[1]), get(a[2])
		for i := range x {
			x[i] = it.div(x[i], at(it, y, i))
		}
		put(a[0], x)
		return a[0]
	})
	reg("AddConst", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x := get(a[1])
		for i := range x {
			x[i] = it.add(x[i], a[0])
		}
		put(a[1], x)
		return nil
	})
	reg("ScalUnitary", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x := get(a[1])
		for i := range x {
			x[i] = it.mul(a[0], x[i])
		}
		put(a[1], x)
		return nil
	})
	reg("ScalUnitaryTo", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x := get(a[2])
		for i := range x {
			x[i] = it.mul(a[1], x[i])
		}
		put(a[0], x)
		return nil
	})
	reg("AxpyUnitary", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x, y := get(a[1]), get(a[2])
		for i := range x {
			x[i] = it.add(at(it, y, i), it.mul(a[0], x[i]))
		}
		put(a[2], x)
		return nil
	})
	reg("AxpyUnitaryTo", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x, y := get(a[2]), get(a[3])
		for i := range x {
			x[i] = it.add(at(it, y, i), it.mul(a[1], x[i]))
		}
		put(a[0], x)
		return nil
	})
	reg("DotUnitary", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		x, y := get(a[0]), get(a[1])
		s := V(Num{zeroPoly})
		for i := range x {
			s = it.add(s, it.mul(x[i], at(it, y, i)))
		}
		return s
	})
	reg("Sum", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		s := V(Num{zeroPoly})
		for _, x := range get(a[0]) {
			s = it.add(s, x)
		}
		return s
	})
	cum := func(op func(it *Interp, x, y V) V) func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		return func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
			x := get(a[1])
			for i := 1; i < len(x); i++ {
				x[i] = op(it, x[i-1], x[i])
			}
			put(a[0], x)
			return a[0]
		}
	}
	reg("CumSum", cum((*Interp).add))
	reg("CumProd", cum((*Interp).mul))
	reg("L2NormUnitary", func(it *Interp, a []V, get func(V) []V, put func(V, []V)) V {
		s := V(Num{zeroPoly})
		for _, x := range get(a[0]) {
			s = it.add(s, it.mul(x, x))
		}
		return it.ctx().apply(func(c *Ctx, l []V) V { return Num{toPoly(l[0]).Sqrt(c.sign)} }, s)
	})
	nan := newAtom("NaN")
	m["math.NaN"] = func(it *Interp, fn *ssa.Function, a []V) V { return Num{atomPoly(nan)} }
}

func isGatedSlice(it *Interp, v V) bool {
	r := false
	it.ctx().leaves(v, func(_ *Ctx, l V) {
		if _, ok := l.(Slice); ok {
			r = true
		}
	})
	return r
}
