package main

import (
	"golang.org/x/tools/go/ssa"
)

// Further matrix operations, beyond those in mat.go.
func init() {
	m := models
	reg := func(typ, name string, f modelFn) { m[matModelName(typ, name)] = f }
	reg("SymDense", "RawSymmetric", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		n := 0
		if !h.empty() {
			n = (h.rows-1)*h.stride + h.rows
		}
		// Uplo is blas.Upper
		return Struct{[]V{Int(121), Int(h.rows), Slice{o: h.o, off: h.off, len: n, cap: h.cp}, Int(h.stride)}}
	}))
	reg("Dense", "RawMatrix", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		n := 0
		if !h.empty() {
			n = (h.rows-1)*h.stride + h.cols
		}
		return Struct{[]V{Int(h.rows), Int(h.cols), Slice{o: h.o, off: h.off, len: n, cap: h.cp}, Int(h.stride)}}
	}))
	outer := func(it *Interp, p Ptr, x, y *matView, f func(i, j int, v V) V) V {
		u, v := it.snapshot(x), it.snapshot(y)
		h := it.matOut(p, len(u), len(v))
		r := make([]V, 0, len(u)*len(v))
		for i := range u {
			for j := range v {
				r = append(r, f(i, j, it.mul(u[i], v[j])))
			}
		}
		it.matSetAll(h, r)
		return nil
	}
	reg("Dense", "Outer", matFnKeep(1, func(it *Interp, a []V) V {
		x, y := it.view(a[2]), it.view(a[3])
		return outer(it, a[0].(Ptr), x, y, func(_, _ int, v V) V { return it.mul(a[1], v) })
	}))
	reg("Dense", "RankOne", matFnKeep(2, func(it *Interp, a []V) V {
		b, x, y := it.view(a[1]), it.view(a[3]), it.view(a[4])
		if b.r != x.r*x.c || b.c != y.r*y.c {
			it.throw("mat: dimension mismatch in RankOne")
		}
		bs := it.snapshot(b)
		return outer(it, a[0].(Ptr), x, y, func(i, j int, v V) V { return it.add(bs[i*b.c+j], it.mul(a[2], v)) })
	}))
	reg("SymDense", "RankTwo", matFnKeep(2, func(it *Interp, a []V) V {
		b, x, y := it.view(a[1]), it.view(a[3]), it.view(a[4])
		if b.r != x.r*x.c || b.r != y.r*y.c {
			it.throw("mat: dimension mismatch in RankTwo")
		}
		bs, u, v := it.snapshot(b), it.snapshot(x), it.snapshot(y)
		h := it.matOut(a[0].(Ptr), b.r, b.r)
		for i := 0; i < b.r; i++ {
			for j := 0; j < b.r; j++ {
				s := it.add(it.mul(u[i], v[j]), it.mul(v[i], u[j]))
				bs[i*b.r+j] = it.add(bs[i*b.r+j], it.mul(a[2], s))
			}
		}
		it.matSetAll(h, bs)
		return nil
	}))
	outerK := func(rank bool) modelFn {
		return matFnKeep(map[bool]int{true: 2, false: 1}[rank], func(it *Interp, a []V) V {
			xi, alpha := a[len(a)-1], a[len(a)-2]
			x := it.view(xi)
			xs := it.snapshot(x)
			var bs []V
			if rank {
				b := it.view(a[1])
				if b.r != x.r {
					it.throw("mat: dimension mismatch in SymRankK")
				}
				bs = it.snapshot(b)
			}
			h := it.matOut(a[0].(Ptr), x.r, x.r)
			r := make([]V, 0, x.r*x.r)
			for i := 0; i < x.r; i++ {
				for j := 0; j < x.r; j++ {
					s := V(Num{zeroPoly})
					for k := 0; k < x.c; k++ {
						s = it.add(s, it.mul(xs[i*x.c+k], xs[j*x.c+k]))
					}
					s = it.mul(alpha, s)
					if rank {
						s = it.add(bs[i*x.r+j], s)
					}
					r = append(r, s)
				}
			}
			it.matSetAll(h, r)
			return nil
		})
	}
	reg("SymDense", "SymOuterK", outerK(false))
	reg("SymDense", "SymRankK", outerK(true))
	reg("SymDense", "SubsetSym", matFn(func(it *Interp, a []V) V {
		w := it.view(a[1])
		set := it.elems(a[2].(Slice))
		vals := it.snapshot(w)
		h := it.matOut(a[0].(Ptr), len(set), len(set))
		r := make([]V, 0, len(set)*len(set))
		for _, i := range set {
			for _, j := range set {
				p, q := mustInt(it.ctx().restrict(i)), mustInt(it.ctx().restrict(j))
				if p < 0 || q < 0 || p >= w.r || q >= w.r {
					it.throw("mat: index out of range in SubsetSym")
				}
				r = append(r, vals[p*w.c+q])
			}
		}
		it.matSetAll(h, r)
		return nil
	}))
	trace := matFn(func(it *Interp, a []V) V {
		w := it.view(a[0])
		if w.r != w.c {
			it.throw("mat: expect square matrix")
		}
		s := V(Num{zeroPoly})
		vals := it.snapshot(w)
		for i := 0; i < w.r; i++ {
			s = it.add(s, vals[i*w.c+i])
		}
		return s
	})
	reg("Dense", "Trace", trace)
	reg("SymDense", "Trace", trace)
	m[matPath+".Trace"] = trace
	m[matModelName("Dense", "Product")] = func(it *Interp, fn *ssa.Function, args []V) V {
		return it.lift2(args[0], args[1], func(p, s V) V {
			fs := it.elems(s.(Slice))
			if len(fs) == 0 {
				unsupported("product of no factors")
			}
			return it.liftAll(append([]V{p}, fs...), func(a []V) V {
				return it.liftHdrs(a, func() V {
					cur := it.view(a[1])
					vals := it.snapshot(cur)
					r, c := cur.r, cur.c
					for _, f := range a[2:] {
						y := it.view(f)
						if c != y.r {
							it.throw("mat: dimension mismatch in Product")
						}
						left, cols := vals, c
						vals = it.matMul(&matView{r: r, c: c, at: func(i, j int) V { return left[i*cols+j] }}, y)
						c = y.c
					}
					h := it.matOut(a[0].(Ptr), r, c)
					it.matSetAll(h, vals)
					return nil
				})
			})
		})
	}
	reg("Dense", "Apply", matFnKeep(1, func(it *Interp, a []V) V {
		w := it.view(a[2])
		vals := it.snapshot(w)
		for i := range vals {
			vals[i] = it.callValue(a[1], []V{Int(i / w.c), Int(i % w.c), vals[i]}, nil)
		}
		h := it.matOut(a[0].(Ptr), w.r, w.c)
		it.matSetAll(h, vals)
		return nil
	}))
	stack := func(below bool) modelFn {
		return matFn(func(it *Interp, a []V) V {
			x, y := it.view(a[1]), it.view(a[2])
			if below && x.c != y.c || !below && x.r != y.r {
				it.throw("mat: dimension mismatch in Stack/Augment")
			}
			u, v := it.snapshot(x), it.snapshot(y)
			var r []V
			if below {
				r = append(u, v...)
				h := it.matOut(a[0].(Ptr), x.r+y.r, x.c)
				it.matSetAll(h, r)
				return nil
			}
			for i := 0; i < x.r; i++ {
				r = append(append(r, u[i*x.c:(i+1)*x.c]...), v[i*y.c:(i+1)*y.c]...)
			}
			h := it.matOut(a[0].(Ptr), x.r, x.c+y.c)
			it.matSetAll(h, r)
			return nil
		})
	}
	reg("Dense", "Stack", stack(true))
	reg("Dense", "Augment", stack(false))
	dims := func(typ string) {
		reg(typ, "Caps", matFn(func(it *Interp, a []V) V {
			h := it.hdr(a[0].(Ptr))
			if h.kind == "vec" {
				return Tuple{[]V{Int(h.cp), Int(1)}}
			}
			return Tuple{[]V{Int(h.capR), Int(h.capC)}}
		}))
	}
	dims("VecDense")
	dims("SymDense")
	dims("Dense")
}
