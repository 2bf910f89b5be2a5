package main

// Models of the dense linear algebra types of gonum (v0.14): shapes, views onto shared backing stores,
// re-use after Reset, panics on shape mismatch, and exact element arithmetic in the abstract domain.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// MatHdr is the (immutable) value of a matrix variable; the elements live in a shared backing object.
type MatHdr struct {
	kind       string // "vec", "sym", "dense"
	o          *Obj   // backing store, content is an Array
	off, cp    int    // window into the backing store
	rows, cols int    // vec: rows = length
	stride     int    // vec: increment
	capR, capC int
}

func (h *MatHdr) String() string { return fmt.Sprintf("%s(%dx%d)", h.kind, h.rows, h.cols) }

func (h *MatHdr) empty() bool {
	if h.kind == "vec" {
		return h.stride == 0
	}
	return h.stride == 0
}

// CholHdr is the value of a mat.Cholesky variable.
type CholHdr struct {
	valid bool
	n     int
	a     []V // row-major snapshot of the factorised matrix
}

func nativeKind(n *types.Named) string {
	o := n.Obj()
	if o.Pkg() == nil {
		return ""
	}
	switch o.Pkg().Path() {
	case matPath:
		switch o.Name() {
		case "VecDense":
			return "vec"
		case "SymDense":
			return "sym"
		case "Dense":
			return "dense"
		case "Cholesky":
			return "chol"
		}
	case "strings":
		if o.Name() == "Builder" {
			return "str"
		}
	case "bytes":
		if o.Name() == "Buffer" {
			return "str"
		}
	}
	return ""
}

func nativeZero(k string) V {
	switch k {
	case "chol":
		return &CholHdr{}
	case "str":
		return Str{""}
	}
	return &MatHdr{kind: k}
}

func (it *Interp) nativeMethod(i Iface, name string, args []V) (V, bool) { return nil, false }

func matModelName(typ, name string) string {
	return "(*" + matPath + "." + typ + ")." + name
}

func (it *Interp) matPtrType(kind string) types.Type {
	return types.NewPointer(it.prog.extType(matPath, map[string]string{"vec": "VecDense", "sym": "SymDense", "dense": "Dense"}[kind]))
}

func (it *Interp) newMat(h *MatHdr) Ptr {
	return Ptr{o: it.alloc(h.kind, nil, h)}
}

func (it *Interp) newBacking(n int) *Obj {
	e := make([]V, n)
	for i := range e {
		e[i] = Num{zeroPoly}
	}
	return it.alloc("data", types.Typ[types.Float64], Array{e})
}

func (it *Interp) newVec(n int) Ptr {
	if n <= 0 {
		it.throw("mat: zero or negative length in NewVecDense")
	}
	return it.newMat(&MatHdr{kind: "vec", o: it.newBacking(n), cp: n, rows: n, cols: 1, stride: 1})
}

func (it *Interp) newSym(n int) Ptr {
	if n <= 0 {
		it.throw("mat: zero or negative dimension in NewSymDense")
	}
	return it.newMat(&MatHdr{kind: "sym", o: it.newBacking(n * n), cp: n * n, rows: n, cols: n, stride: n, capR: n, capC: n})
}

func (it *Interp) newDense(r, c int) Ptr {
	if r < 0 || c < 0 || (r == 0) != (c == 0) || r == 0 {
		it.throw("mat: zero or negative dimension in NewDense")
	}
	return it.newMat(&MatHdr{kind: "dense", o: it.newBacking(r * c), cp: r * c, rows: r, cols: c, stride: c, capR: r, capC: c})
}

// hdr resolves a matrix pointer; gates must have been lifted by the caller.
func (it *Interp) hdr(p Ptr) *MatHdr {
	if p.o == nil {
		it.throw("nil matrix")
	}
	v := it.ctx().restrict(it.getPath(it.content(p.o), splitPath(p.path)))
	h, ok := v.(*MatHdr)
	if !ok {
		unsupported("matrix header %T", v)
	}
	return h
}

func (h *MatHdr) idx(i, j int) int {
	switch h.kind {
	case "vec":
		return h.off + i*h.stride
	case "sym":
		if i > j {
			i, j = j, i
		}
	}
	return h.off + i*h.stride + j
}

func (it *Interp) data(o *Obj) []V {
	v := it.ctx().restrict(it.content(o))
	a, ok := v.(Array)
	if !ok {
		unsupported("matrix data %T", v)
	}
	return a.e
}

func (it *Interp) matAt(h *MatHdr, i, j int) V {
	if i < 0 || i >= h.rows || j < 0 || (h.kind != "vec" && j >= h.cols) || (h.kind == "vec" && j != 0) {
		it.throw("mat: index (%d,%d) out of range %dx%d", i, j, h.rows, h.cols)
	}
	return it.data(h.o)[h.idx(i, j)]
}

func (it *Interp) matSet(h *MatHdr, i, j int, v V) {
	if i < 0 || i >= h.rows || j < 0 || (h.kind != "vec" && j >= h.cols) || (h.kind == "vec" && j != 0) {
		it.throw("mat: index (%d,%d) out of range %dx%d", i, j, h.rows, h.cols)
	}
	d := append([]V(nil), it.data(h.o)...)
	d[h.idx(i, j)] = v
	it.setContent(h.o, Array{d})
	it.noteWrite(h.o, h.idx(i, j))
}

// matFill writes many entries; f must not read what it has written.
func (it *Interp) matFill(h *MatHdr, f func(set func(i, j int, v V))) {
	d := append([]V(nil), it.data(h.o)...)
	f(func(i, j int, v V) {
		d[h.idx(i, j)] = v
		it.noteWrite(h.o, h.idx(i, j))
	})
	it.setContent(h.o, Array{d})
}

type siteKey struct {
	o *Obj
	i int
}

// noteWrite remembers the innermost source positions of the last write to a matrix entry.
func (it *Interp) noteWrite(o *Obj, i int) {
	var s [3]token.Pos
	n := 0
	for f := it.fr; f != nil && n < 3; f = f.parent {
		if f.fn != nil && f.pos.IsValid() && it.prog.isRepoPkg(fnPkgPath(f.fn)) {
			s[n] = f.pos
			n++
		}
	}
	if it.writes == nil {
		it.writes = map[siteKey][3]token.Pos{}
	}
	it.writes[siteKey{o, i}] = s
}

func (it *Interp) writeSite(o *Obj, i int) string {
	r := ""
	for _, p := range it.writes[siteKey{o, i}] {
		if p.IsValid() {
			if r != "" {
				r += " < "
			}
			r += shortPos(it.prog, it.prog.fset.Position(p))
		}
	}
	if r == "" {
		r = "never written"
	}
	return r
}

// matSetAll stores a full matrix (row-major; the upper triangle for symmetric ones).
func (it *Interp) matSetAll(h *MatHdr, vals []V) {
	d := append([]V(nil), it.data(h.o)...)
	cols := h.cols
	if h.kind == "vec" {
		cols = 1
	}
	for i := 0; i < h.rows; i++ {
		for j := 0; j < cols; j++ {
			if h.kind == "sym" && j < i {
				continue
			}
			d[h.idx(i, j)] = vals[i*cols+j]
		}
	}
	it.setContent(h.o, Array{d})
}

// use re-uses or creates the backing window like gonum's use()/useZeroed().
func (it *Interp) matUse(p Ptr, h *MatHdr, r, c int, zero bool) *MatHdr {
	n := *h
	var size int
	switch h.kind {
	case "vec":
		size = r
		n.rows, n.cols, n.stride = r, 1, 1
	case "sym":
		size = r * r
		n.rows, n.cols, n.stride, n.capR, n.capC = r, r, r, r, r
	default:
		size = r * c
		n.rows, n.cols, n.stride, n.capR, n.capC = r, c, c, r, c
	}
	if h.o == nil || h.cp < size {
		n.o, n.off, n.cp = it.newBacking(size), 0, size
	} else if zero {
		d := append([]V(nil), it.data(h.o)...)
		for i := 0; i < size; i++ {
			d[h.off+i] = Num{zeroPoly}
		}
		it.setContent(h.o, Array{d})
	}
	it.setContent(p.o, it.setPath(it.content(p.o), splitPath(p.path), &n))
	return &n
}

// matOut prepares the destination of an operation.
func (it *Interp) matOut(p Ptr, r, c int) *MatHdr {
	h := it.hdr(p)
	if r == 0 || c == 0 {
		it.throw("mat: zero length in matrix dimension")
	}
	if h.empty() {
		return it.matUse(p, h, r, c, false)
	}
	if h.rows != r || (h.kind != "vec" && h.cols != c) || (h.kind == "vec" && c != 1) {
		it.throw("mat: dimension mismatch (destination %dx%d, result %dx%d)", h.rows, h.cols, r, c)
	}
	return h
}

// matView is a read-only view on any matrix argument.
type matView struct {
	r, c  int
	at    func(i, j int) V
	src   *Ptr    // identity of the underlying variable
	h     *MatHdr // underlying storage
	trans bool
	isVec bool
	sym   bool
}

func (it *Interp) view(v V) *matView {
	v = it.ctx().restrict(v)
	switch x := v.(type) {
	case Iface:
		if x.typ == nil {
			it.throw("nil matrix argument")
		}
		if p, ok := x.val.(Ptr); ok {
			if pt, ok := x.typ.Underlying().(*types.Pointer); ok {
				if n, ok := pt.Elem().(*types.Named); ok && nativeKind(n) != "" && nativeKind(n) != "chol" {
					return it.view(p)
				}
			}
		}
		if s, ok := x.val.(Struct); ok && len(s.f) == 1 {
			if n, ok := x.typ.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == matPath {
				switch n.Obj().Name() {
				case "Transpose", "TransposeVec":
					in := it.view(s.f[0])
					return &matView{r: in.c, c: in.r, at: func(i, j int) V { return in.at(j, i) }, src: in.src, h: in.h, trans: !in.trans, isVec: in.isVec, sym: in.sym}
				}
			}
		}
		if g, ok := x.val.(*Ite); ok {
			unsupported("gated matrix argument %v", show(g))
		}
		// Arbitrary implementation: ask its methods
		dims := it.ctx().restrict(it.callMethod(x, "Dims"))
		t, ok := dims.(Tuple)
		if !ok {
			unsupported("dimensions of %v", show(v))
		}
		r, ok1 := toInt(t.e[0])
		c, ok2 := toInt(t.e[1])
		if !ok1 || !ok2 {
			unsupported("symbolic matrix dimensions")
		}
		return &matView{r: r, c: c, at: func(i, j int) V { return it.callMethod(x, "At", Int(i), Int(j)) }}
	case Ptr:
		h := it.hdr(x)
		c := h.cols
		if h.kind == "vec" {
			c = 1
		}
		return &matView{r: h.rows, c: c, src: &x, h: h, isVec: h.kind == "vec", sym: h.kind == "sym",
			at: func(i, j int) V {
				return it.matAt(h, i, j)
			}}
	}
	unsupported("matrix argument %T", v)
	return nil
}

func (it *Interp) snapshot(w *matView) []V {
	r := make([]V, 0, w.r*w.c)
	for i := 0; i < w.r; i++ {
		for j := 0; j < w.c; j++ {
			r = append(r, w.at(i, j))
		}
	}
	return r
}

func (h *MatHdr) window() (lo, hi int) {
	switch h.kind {
	case "vec":
		return h.off, h.off + (h.rows-1)*h.stride + 1
	}
	return h.off, h.off + (h.rows-1)*h.stride + h.cols
}

// checkOverlap panics like gonum if destination and source share storage without being the same variable.
func (it *Interp) checkOverlap(dst Ptr, h *MatHdr, w *matView, identityOK bool) {
	if w.h == nil || w.src == nil || h.o == nil || w.h.o != h.o {
		return
	}
	if *w.src == dst && identityOK {
		return
	}
	if h.kind != "vec" || w.h.kind != "vec" || h.stride != 1 || w.h.stride != 1 {
		// column/row interleaving is not modelled precisely: compare touched cells
		cells := map[int]bool{}
		for i := 0; i < h.rows; i++ {
			for j := 0; j < max(1, h.cols); j++ {
				if h.kind == "vec" && j > 0 {
					break
				}
				cells[h.idx(i, j)] = true
			}
		}
		for i := 0; i < w.h.rows; i++ {
			for j := 0; j < max(1, w.h.cols); j++ {
				if w.h.kind == "vec" && j > 0 {
					break
				}
				if cells[w.h.idx(i, j)] {
					it.throw("mat: overlapping matrix regions")
				}
			}
		}
		return
	}
	lo1, hi1 := h.window()
	lo2, hi2 := w.h.window()
	if lo1 < hi2 && lo2 < hi1 {
		it.throw("mat: overlapping matrix regions")
	}
}

func (it *Interp) add(a, b V) V {
	return it.ctx().apply(func(_ *Ctx, l []V) V { return Num{toPoly(l[0]).Add(toPoly(l[1]))} }, a, b)
}
func (it *Interp) sub(a, b V) V {
	return it.ctx().apply(func(_ *Ctx, l []V) V { return Num{toPoly(l[0]).Sub(toPoly(l[1]))} }, a, b)
}
func (it *Interp) mul(a, b V) V {
	return it.ctx().apply(func(_ *Ctx, l []V) V { return Num{toPoly(l[0]).Mul(toPoly(l[1]))} }, a, b)
}
func (it *Interp) div(a, b V) V {
	it.ctx().leaves(b, func(c *Ctx, l V) { it.noteDivisor(c, toPoly(l)) })
	return it.ctx().apply(func(_ *Ctx, l []V) V {
		if toPoly(l[1]).IsZero() {
			if it.anyDiv {
				return Num{sym(fmt.Sprintf("quotient#%d", it.fresh()))}
			}
			return Dead{}
		}
		return Num{toPoly(l[0]).Div(toPoly(l[1]))}
	}, a, b)
}

// liftAll resolves the gates of all arguments, then calls f.
func (it *Interp) liftAll(args []V, f func(a []V) V) V {
	var rec func(done, rest []V) V
	rec = func(done, rest []V) V {
		if len(rest) == 0 {
			return f(done)
		}
		return it.lift(rest[0], func(l V) V {
			if i, ok := l.(Iface); ok && i.typ != nil {
				if _, gated := i.val.(*Ite); gated {
					return it.lift(i.val, func(lv V) V {
						return rec(append(append([]V(nil), done...), Iface{i.typ, lv}), rest[1:])
					})
				}
			}
			return rec(append(append([]V(nil), done...), l), rest[1:])
		})
	}
	return rec(nil, args)
}

func matFn(f func(it *Interp, a []V) V) modelFn {
	return func(it *Interp, fn *ssa.Function, args []V) V {
		return it.liftAll(args, func(a []V) V { return it.liftHdrs(a, func() V { return f(it, a) }) })
	}
}

// liftHdrs resolves gated matrix headers behind pointers.
func (it *Interp) liftHdrs(args []V, f func() V) V {
	var gated func(v V, depth int) V
	gated = func(v V, depth int) V {
		switch x := v.(type) {
		case Iface:
			if depth < 4 {
				return gated(x.val, depth+1)
			}
		case Struct:
			for _, y := range x.f {
				if g := gated(y, depth+1); g != nil && depth < 4 {
					return g
				}
			}
		case Ptr:
			if x.o == nil {
				return nil
			}
			if c, ok := it.ctx().restrict(it.getPath(it.content(x.o), splitPath(x.path))).(*Ite); ok {
				leafHdr := false
				it.ctx().leaves(c, func(_ *Ctx, l V) {
					if _, ok := l.(*MatHdr); ok {
						leafHdr = true
					}
				})
				if leafHdr {
					return c
				}
			}
		}
		return nil
	}
	for _, a := range args {
		if g := gated(a, 0); g != nil {
			return it.lift(g, func(V) V { return it.liftHdrs(args, f) })
		}
	}
	return f()
}

// elementwise arguments (floats) may stay gated
func matFnKeep(keep int, f func(it *Interp, a []V) V) modelFn {
	return func(it *Interp, fn *ssa.Function, args []V) V {
		k := args[keep]
		return it.liftAll(append(append([]V(nil), args[:keep]...), args[keep+1:]...), func(a []V) V {
			full := append(append(append([]V(nil), a[:keep]...), k), a[keep:]...)
			return it.liftHdrs(full, func() V { return f(it, full) })
		})
	}
}

func mustInt(v V) int {
	i, ok := toInt(v)
	if !ok {
		unsupported("symbolic index")
	}
	return i
}

func (it *Interp) matIface(kind string, p Ptr) Iface { return Iface{typ: it.matPtrType(kind), val: p} }

func (it *Interp) transposed(v Iface, vec bool) V {
	name := "Transpose"
	if vec {
		name = "TransposeVec"
	}
	return Iface{typ: it.prog.extType(matPath, name), val: Struct{[]V{v}}}
}

func init() {
	m := models
	reg := func(typ, name string, f modelFn) { m[matModelName(typ, name)] = f }
	kinds := map[string]string{"VecDense": "vec", "SymDense": "sym", "Dense": "dense"}

	newMat := func(f func(it *Interp, a []V) V) modelFn { return matFn(f) }
	m[matPath+".NewVecDense"] = newMat(func(it *Interp, a []V) V {
		n := mustInt(a[0])
		s := a[1].(Slice)
		if s.o == nil {
			return it.newVec(n)
		}
		flat(s)
		if n <= 0 || s.len != n {
			it.throw("mat: dimension mismatch in NewVecDense(%d, %d values)", n, s.len)
		}
		return it.newMat(&MatHdr{kind: "vec", o: s.o, off: s.off, cp: s.cap, rows: n, cols: 1, stride: 1})
	})
	m[matPath+".NewSymDense"] = newMat(func(it *Interp, a []V) V {
		n := mustInt(a[0])
		s := a[1].(Slice)
		if s.o == nil {
			return it.newSym(n)
		}
		flat(s)
		if n <= 0 || s.len != n*n {
			it.throw("mat: dimension mismatch in NewSymDense(%d, %d values)", n, s.len)
		}
		return it.newMat(&MatHdr{kind: "sym", o: s.o, off: s.off, cp: s.cap, rows: n, cols: n, stride: n, capR: n, capC: n})
	})
	m[matPath+".NewDense"] = newMat(func(it *Interp, a []V) V {
		r, c := mustInt(a[0]), mustInt(a[1])
		s := a[2].(Slice)
		if s.o == nil {
			return it.newDense(r, c)
		}
		flat(s)
		if r <= 0 || c <= 0 || s.len != r*c {
			it.throw("mat: dimension mismatch in NewDense(%d, %d, %d values)", r, c, s.len)
		}
		return it.newMat(&MatHdr{kind: "dense", o: s.o, off: s.off, cp: s.cap, rows: r, cols: c, stride: c, capR: r, capC: c})
	})

	for typ, kind := range kinds {
		typ, kind := typ, kind
		reg(typ, "Dims", matFn(func(it *Interp, a []V) V {
			w := it.view(a[0])
			if kind == "vec" && it.hdr(a[0].(Ptr)).empty() {
				return Tuple{[]V{Int(0), Int(0)}}
			}
			return Tuple{[]V{Int(w.r), Int(w.c)}}
		}))
		reg(typ, "IsEmpty", matFn(func(it *Interp, a []V) V { return Bool(it.hdr(a[0].(Ptr)).empty()) }))
		reg(typ, "At", matFn(func(it *Interp, a []V) V { return it.matAt(it.hdr(a[0].(Ptr)), mustInt(a[1]), mustInt(a[2])) }))
		reg(typ, "Reset", matFn(func(it *Interp, a []V) V {
			p := a[0].(Ptr)
			h := *it.hdr(p)
			h.rows, h.cols, h.stride = 0, 0, 0
			it.store(p, &h)
			return nil
		}))
		reg(typ, "Zero", matFn(func(it *Interp, a []V) V {
			h := it.hdr(a[0].(Ptr))
			if h.empty() {
				return nil
			}
			n := h.rows * max(1, h.cols)
			z := make([]V, n)
			for i := range z {
				z[i] = Num{zeroPoly}
			}
			it.matSetAll(h, z)
			return nil
		}))
		reg(typ, "T", matFn(func(it *Interp, a []V) V {
			i := it.matIface(kind, a[0].(Ptr))
			if kind == "sym" {
				return i
			}
			return it.transposed(i, false)
		}))
	}
	// vectors
	reg("VecDense", "Len", matFn(func(it *Interp, a []V) V { return Int(it.hdr(a[0].(Ptr)).rows) }))
	reg("VecDense", "Cap", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		if h.empty() {
			return Int(0)
		}
		return Int((h.cp-1)/h.stride + 1)
	}))
	reg("VecDense", "AtVec", matFn(func(it *Interp, a []V) V { return it.matAt(it.hdr(a[0].(Ptr)), mustInt(a[1]), 0) }))
	reg("VecDense", "SetVec", matFnKeep(2, func(it *Interp, a []V) V {
		it.matSet(it.hdr(a[0].(Ptr)), mustInt(a[1]), 0, a[2])
		return nil
	}))
	reg("VecDense", "TVec", matFn(func(it *Interp, a []V) V { return it.transposed(it.matIface("vec", a[0].(Ptr)), true) }))
	reg("VecDense", "ReuseAsVec", matFn(func(it *Interp, a []V) V {
		p, n := a[0].(Ptr), mustInt(a[1])
		if n <= 0 {
			it.throw("mat: zero length in ReuseAsVec")
		}
		h := it.hdr(p)
		if !h.empty() {
			it.throw("mat: reuse of non-empty vector")
		}
		it.matUse(p, h, n, 1, true)
		return nil
	}))
	reg("VecDense", "SliceVec", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		i, k := mustInt(a[1]), mustInt(a[2])
		c := 0
		if !h.empty() {
			c = (h.cp-1)/h.stride + 1
		}
		if i < 0 || k <= i || c < k {
			it.throw("mat: slice [%d:%d] of vector with capacity %d", i, k, c)
		}
		n := *h
		n.off += i * h.stride
		n.cp -= i * h.stride
		n.rows = k - i
		return it.matIface("vec", it.newMat(&n))
	}))
	cloneVec := func(it *Interp, p Ptr, src V) {
		w := it.view(src)
		if w.src != nil && *w.src == p {
			return
		}
		vals := it.snapshot(w)
		h := it.matUse(p, it.hdr(p), len(vals), 1, false)
		it.matSetAll(h, vals)
	}
	reg("VecDense", "CloneFromVec", matFn(func(it *Interp, a []V) V { cloneVec(it, a[0].(Ptr), a[1]); return nil }))
	m[matPath+".VecDenseCopyOf"] = matFn(func(it *Interp, a []V) V {
		p := it.newMat(&MatHdr{kind: "vec"})
		cloneVec(it, p, a[0])
		return p
	})
	reg("VecDense", "CopyVec", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		vals := it.snapshot(it.view(a[1]))
		n := min(h.rows, len(vals))
		for i := 0; i < n; i++ {
			it.matSet(h, i, 0, vals[i])
		}
		return Int(n)
	}))
	reg("VecDense", "ScaleVec", matFnKeep(1, func(it *Interp, a []V) V {
		p := a[0].(Ptr)
		w := it.view(a[2])
		n := max(w.r, w.c)
		h := it.matOut(p, n, 1)
		it.checkOverlap(p, h, w, true)
		vals := it.snapshot(w)
		for i := range vals {
			vals[i] = it.mul(a[1], vals[i])
		}
		it.matSetAll(h, vals)
		return nil
	}))
	vecOp := func(op func(it *Interp, x, y V) V) modelFn {
		return matFn(func(it *Interp, a []V) V {
			p := a[0].(Ptr)
			x, y := it.view(a[1]), it.view(a[2])
			if x.r*x.c != y.r*y.c {
				it.throw("mat: dimension mismatch (%d and %d)", x.r*x.c, y.r*y.c)
			}
			h := it.matOut(p, x.r*x.c, 1)
			it.checkOverlap(p, h, x, true)
			it.checkOverlap(p, h, y, true)
			u, v := it.snapshot(x), it.snapshot(y)
			for i := range u {
				u[i] = op(it, u[i], v[i])
			}
			it.matSetAll(h, u)
			return nil
		})
	}
	reg("VecDense", "AddVec", vecOp((*Interp).add))
	reg("VecDense", "SubVec", vecOp((*Interp).sub))
	reg("VecDense", "MulElemVec", vecOp((*Interp).mul))
	reg("VecDense", "DivElemVec", vecOp((*Interp).div))
	reg("VecDense", "AddScaledVec", matFnKeep(2, func(it *Interp, a []V) V {
		al := a[2]
		return vecOp(func(it *Interp, x, y V) V { return it.add(x, it.mul(al, y)) })(it, nil, []V{a[0], a[1], a[3]})
	}))
	reg("VecDense", "MulVec", matFn(func(it *Interp, a []V) V {
		p := a[0].(Ptr)
		x, y := it.view(a[1]), it.view(a[2])
		if x.c != y.r || y.c != 1 {
			it.throw("mat: dimension mismatch in MulVec (%dx%d times %dx%d)", x.r, x.c, y.r, y.c)
		}
		h := it.matOut(p, x.r, 1)
		it.checkOverlap(p, h, y, true)
		it.checkOverlap(p, h, x, true)
		it.matSetAll(h, it.matMul(x, y))
		return nil
	}))
	reg("VecDense", "RawVector", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		return Struct{[]V{Int(h.rows), Slice{o: h.o, off: h.off, len: max(0, (h.rows-1)*h.stride+1), cap: h.cp}, Int(h.stride)}}
	}))
	reg("VecDense", "Norm", matFn(func(it *Interp, a []V) V {
		w := it.view(a[0])
		k, _ := toPoly(a[1]).constVal()
		if k == nil || k.Cmp(big.NewRat(2, 1)) != 0 {
			unsupported("vector norm of order other than 2")
		}
		s := V(Num{zeroPoly})
		for _, x := range it.snapshot(w) {
			s = it.add(s, it.mul(x, x))
		}
		return it.ctx().apply(func(c *Ctx, l []V) V { return Num{toPoly(l[0]).Sqrt(c.sign)} }, s)
	}))
	m[matPath+".Dot"] = matFn(func(it *Interp, a []V) V {
		x, y := it.view(a[0]), it.view(a[1])
		u, v := it.snapshot(x), it.snapshot(y)
		if len(u) != len(v) {
			it.throw("mat: dimension mismatch in Dot")
		}
		s := V(Num{zeroPoly})
		for i := range u {
			s = it.add(s, it.mul(u[i], v[i]))
		}
		return s
	})
	m[matPath+".Inner"] = matFn(func(it *Interp, a []V) V {
		x, k, y := it.view(a[0]), it.view(a[1]), it.view(a[2])
		u, v := it.snapshot(x), it.snapshot(y)
		if len(u) != k.r || len(v) != k.c {
			it.throw("mat: dimension mismatch in Inner")
		}
		s := V(Num{zeroPoly})
		for i := range u {
			for j := range v {
				s = it.add(s, it.mul(it.mul(u[i], k.at(i, j)), v[j]))
			}
		}
		return s
	})
	m[matPath+".Sum"] = matFn(func(it *Interp, a []V) V {
		s := V(Num{zeroPoly})
		for _, x := range it.snapshot(it.view(a[0])) {
			s = it.add(s, x)
		}
		return s
	})
	rowCol := func(row bool) modelFn {
		return matFn(func(it *Interp, a []V) V {
			s := a[0].(Slice)
			w := it.view(a[2])
			k := mustInt(a[1])
			n, lim := w.r, w.c
			if row {
				n, lim = w.c, w.r
			}
			if k < 0 || k >= lim {
				it.throw("mat: row/column index out of range")
			}
			var vals []V
			for i := 0; i < n; i++ {
				if row {
					vals = append(vals, w.at(k, i))
				} else {
					vals = append(vals, w.at(i, k))
				}
			}
			if s.o == nil {
				return it.sliceOf(types.Typ[types.Float64], vals)
			}
			if s.len != n {
				it.throw("mat: dimension mismatch in Row/Col")
			}
			it.writeElems(s, 0, vals)
			return s
		})
	}
	m[matPath+".Row"] = rowCol(true)
	m[matPath+".Col"] = rowCol(false)
	// symmetric matrices
	reg("SymDense", "SymmetricDim", matFn(func(it *Interp, a []V) V { return Int(it.hdr(a[0].(Ptr)).rows) }))
	reg("SymDense", "SetSym", matFnKeep(3, func(it *Interp, a []V) V {
		it.matSet(it.hdr(a[0].(Ptr)), mustInt(a[1]), mustInt(a[2]), a[3])
		return nil
	}))
	reg("SymDense", "ReuseAsSym", matFn(func(it *Interp, a []V) V {
		p, n := a[0].(Ptr), mustInt(a[1])
		if n <= 0 {
			it.throw("mat: zero length in ReuseAsSym")
		}
		h := it.hdr(p)
		if !h.empty() {
			it.throw("mat: reuse of non-empty matrix")
		}
		it.matUse(p, h, n, n, true)
		return nil
	}))
	reg("SymDense", "SliceSym", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		i, k := mustInt(a[1]), mustInt(a[2])
		if i < 0 || h.capR < i || k <= i || h.capR < k {
			it.throw("mat: slice [%d:%d] of symmetric matrix with capacity %d", i, k, h.capR)
		}
		n := *h
		n.off += i*h.stride + i
		n.cp -= i*h.stride + i
		n.rows, n.cols = k-i, k-i
		n.capR, n.capC = h.capR-i, h.capC-i
		return it.matIface("sym", it.newMat(&n))
	}))
	reg("SymDense", "CopySym", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		w := it.view(a[1])
		n := min(h.rows, w.r)
		vals := it.snapshot(w)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				it.matSet(h, i, j, vals[i*w.c+j])
			}
		}
		return Int(n)
	}))
	reg("SymDense", "AddSym", matFn(func(it *Interp, a []V) V {
		x, y := it.view(a[1]), it.view(a[2])
		if x.r != y.r {
			it.throw("mat: dimension mismatch in AddSym")
		}
		h := it.matOut(a[0].(Ptr), x.r, x.r)
		it.checkOverlap(a[0].(Ptr), h, x, true)
		it.checkOverlap(a[0].(Ptr), h, y, true)
		u, v := it.snapshot(x), it.snapshot(y)
		for i := range u {
			u[i] = it.add(u[i], v[i])
		}
		it.matSetAll(h, u)
		return nil
	}))
	reg("SymDense", "ScaleSym", matFnKeep(1, func(it *Interp, a []V) V {
		x := it.view(a[2])
		h := it.matOut(a[0].(Ptr), x.r, x.r)
		it.checkOverlap(a[0].(Ptr), h, x, true)
		u := it.snapshot(x)
		for i := range u {
			u[i] = it.mul(a[1], u[i])
		}
		it.matSetAll(h, u)
		return nil
	}))
	reg("SymDense", "SymRankOne", matFnKeep(2, func(it *Interp, a []V) V {
		x, y := it.view(a[1]), it.view(a[3])
		if x.r != y.r*y.c {
			it.throw("mat: dimension mismatch in SymRankOne")
		}
		h := it.matOut(a[0].(Ptr), x.r, x.r)
		u, v := it.snapshot(x), it.snapshot(y)
		for i := 0; i < x.r; i++ {
			for j := 0; j < x.r; j++ {
				u[i*x.r+j] = it.add(u[i*x.r+j], it.mul(a[2], it.mul(v[i], v[j])))
			}
		}
		it.matSetAll(h, u)
		return nil
	}))
	// general matrices
	reg("Dense", "Set", matFnKeep(3, func(it *Interp, a []V) V {
		it.matSet(it.hdr(a[0].(Ptr)), mustInt(a[1]), mustInt(a[2]), a[3])
		return nil
	}))
	reg("Dense", "ReuseAs", matFn(func(it *Interp, a []V) V {
		p, r, c := a[0].(Ptr), mustInt(a[1]), mustInt(a[2])
		if r <= 0 || c <= 0 {
			it.throw("mat: zero length in ReuseAs")
		}
		h := it.hdr(p)
		if !h.empty() {
			it.throw("mat: reuse of non-empty matrix")
		}
		it.matUse(p, h, r, c, true)
		return nil
	}))
	reg("Dense", "Slice", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		i, k, j, l := mustInt(a[1]), mustInt(a[2]), mustInt(a[3]), mustInt(a[4])
		if i < 0 || h.capR <= i || j < 0 || h.capC <= j || k <= i || h.capR < k || l <= j || h.capC < l {
			it.throw("mat: slice out of range")
		}
		n := *h
		n.off += i*h.stride + j
		n.cp -= i*h.stride + j
		n.rows, n.cols = k-i, l-j
		n.capR -= i
		n.capC -= j
		return it.matIface("dense", it.newMat(&n))
	}))
	reg("Dense", "Copy", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		w := it.view(a[1])
		r, c := min(h.rows, w.r), min(h.cols, w.c)
		vals := it.snapshot(w)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				it.matSet(h, i, j, vals[i*w.c+j])
			}
		}
		return Tuple{[]V{Int(r), Int(c)}}
	}))
	cloneDense := func(it *Interp, p Ptr, src V) {
		w := it.view(src)
		vals := it.snapshot(w)
		h := &MatHdr{kind: "dense", o: it.newBacking(w.r * w.c), cp: w.r * w.c, rows: w.r, cols: w.c, stride: w.c, capR: w.r, capC: w.c}
		it.store(p, h)
		it.matSetAll(h, vals)
	}
	reg("Dense", "CloneFrom", matFn(func(it *Interp, a []V) V { cloneDense(it, a[0].(Ptr), a[1]); return nil }))
	m[matPath+".DenseCopyOf"] = matFn(func(it *Interp, a []V) V {
		p := it.newMat(&MatHdr{kind: "dense"})
		cloneDense(it, p, a[0])
		return p
	})
	reg("Dense", "Mul", matFn(func(it *Interp, a []V) V {
		p := a[0].(Ptr)
		x, y := it.view(a[1]), it.view(a[2])
		if x.c != y.r {
			it.throw("mat: dimension mismatch in Mul")
		}
		h := it.matOut(p, x.r, y.c)
		it.checkOverlap(p, h, x, true)
		it.checkOverlap(p, h, y, true)
		it.matSetAll(h, it.matMul(x, y))
		return nil
	}))
	m[matModelName("Dense", "Product")] = func(it *Interp, fn *ssa.Function, args []V) V {
		unsupported("Dense.Product")
		return nil
	}
	denseOp := func(op func(it *Interp, x, y V) V) modelFn {
		return matFn(func(it *Interp, a []V) V {
			p := a[0].(Ptr)
			x, y := it.view(a[1]), it.view(a[2])
			if x.r != y.r || x.c != y.c {
				it.throw("mat: dimension mismatch")
			}
			h := it.matOut(p, x.r, x.c)
			it.checkOverlap(p, h, x, true)
			it.checkOverlap(p, h, y, true)
			u, v := it.snapshot(x), it.snapshot(y)
			for i := range u {
				u[i] = op(it, u[i], v[i])
			}
			it.matSetAll(h, u)
			return nil
		})
	}
	reg("Dense", "Add", denseOp((*Interp).add))
	reg("Dense", "Sub", denseOp((*Interp).sub))
	reg("Dense", "MulElem", denseOp((*Interp).mul))
	reg("Dense", "Scale", matFnKeep(1, func(it *Interp, a []V) V {
		x := it.view(a[2])
		h := it.matOut(a[0].(Ptr), x.r, x.c)
		it.checkOverlap(a[0].(Ptr), h, x, true)
		u := it.snapshot(x)
		for i := range u {
			u[i] = it.mul(a[1], u[i])
		}
		it.matSetAll(h, u)
		return nil
	}))
	vecView := func(row bool) modelFn {
		return matFn(func(it *Interp, a []V) V {
			h := it.hdr(a[0].(Ptr))
			k := mustInt(a[1])
			n := *h
			n.kind = "vec"
			if row {
				if k < 0 || k >= h.rows {
					it.throw("mat: row index out of range")
				}
				n.off += k * h.stride
				n.rows, n.cols, n.stride, n.cp = h.cols, 1, 1, h.cols
			} else {
				if k < 0 || k >= h.cols {
					it.throw("mat: column index out of range")
				}
				n.off += k
				n.rows, n.cols, n.stride = h.rows, 1, h.stride
				n.cp = (h.rows-1)*h.stride + 1
			}
			return it.matIface("vec", it.newMat(&n))
		})
	}
	reg("Dense", "RowView", vecView(true))
	reg("Dense", "ColView", vecView(false))
	reg("Dense", "RawRowView", matFn(func(it *Interp, a []V) V {
		h := it.hdr(a[0].(Ptr))
		k := mustInt(a[1])
		if k < 0 || k >= h.rows {
			it.throw("mat: row index out of range")
		}
		return Slice{o: h.o, off: h.off + k*h.stride, len: h.cols, cap: h.cols}
	}))
	setRC := func(row bool) modelFn {
		return matFn(func(it *Interp, a []V) V {
			h := it.hdr(a[0].(Ptr))
			k := mustInt(a[1])
			vals := append([]V(nil), it.elems(a[2].(Slice))...)
			n := h.rows
			if row {
				n = h.cols
			}
			if len(vals) != n {
				it.throw("mat: dimension mismatch in SetRow/SetCol")
			}
			for i, v := range vals {
				if row {
					it.matSet(h, k, i, v)
				} else {
					it.matSet(h, i, k, v)
				}
			}
			return nil
		})
	}
	reg("Dense", "SetRow", setRC(true))
	reg("Dense", "SetCol", setRC(false))
	// equality
	m[matPath+".Equal"] = matFn(func(it *Interp, a []V) V {
		x, y := it.view(a[0]), it.view(a[1])
		if x.r != y.r || x.c != y.c {
			return Bool(false)
		}
		r := V(Bool(true))
		u, v := it.snapshot(x), it.snapshot(y)
		for i := range u {
			r = it.ctx().and(r, it.equal(u[i], v[i], types.Typ[types.Float64]))
		}
		return r
	})
	// Cholesky factorisation: numeric outcome is unknown to the analysis
	chol := func(it *Interp, p Ptr) *CholHdr {
		if p.o == nil {
			it.throw("nil Cholesky")
		}
		h, ok := it.ctx().restrict(it.getPath(it.content(p.o), splitPath(p.path))).(*CholHdr)
		if !ok {
			unsupported("Cholesky header")
		}
		return h
	}
	reg("Cholesky", "Factorize", matFn(func(it *Interp, a []V) V {
		p := a[0].(Ptr)
		chol(it, p)
		w := it.view(a[1])
		it.cholCalls++
		id := strconv.Itoa(it.cholCalls)
		snap := it.snapshot(w)
		return it.forkVal(opaqueAtom("linear algebra library panics in factorisation "+id), func(b bool) V {
			if b {
				it.throw("lapack: panic")
			}
			return it.forkVal(opaqueAtom("factorisation "+id+" succeeds"), func(b bool) V {
				if b {
					it.store(p, &CholHdr{valid: true, n: w.r, a: snap})
				} else {
					it.store(p, &CholHdr{})
				}
				return Bool(b)
			})
		})
	}))
	cholNum := func(name string) {
		reg("Cholesky", name, matFn(func(it *Interp, a []V) V {
			if !chol(it, a[0].(Ptr)).valid {
				it.throw("mat: invalid Cholesky factorisation (%s)", name)
			}
			return Num{sym("chol." + name)}
		}))
	}
	cholNum("Det")
	cholNum("LogDet")
	cholNum("Cond")
	reg("Cholesky", "IsEmpty", matFn(func(it *Interp, a []V) V { return Bool(!chol(it, a[0].(Ptr)).valid) }))
	reg("Cholesky", "Reset", matFn(func(it *Interp, a []V) V { it.store(a[0], &CholHdr{}); return nil }))
	solve := func(dense bool) modelFn {
		return matFn(func(it *Interp, a []V) V {
			h := chol(it, a[0].(Ptr))
			if !h.valid {
				it.throw("mat: invalid Cholesky factorisation (solve)")
			}
			w := it.view(a[2])
			if w.r != h.n || (!dense && w.c != 1) {
				it.throw("mat: dimension mismatch in Cholesky solve (%d equations, right-hand side %dx%d)", h.n, w.r, w.c)
			}
			dst := a[1].(Ptr)
			dh := it.matOut(dst, w.r, w.c)
			it.checkOverlap(dst, dh, w, true)
			it.cholCalls++
			id := strconv.Itoa(it.cholCalls)
			rec := &cholSolve{a: h.a, b: it.snapshot(w), ctx: it.ctx()}
			vals := make([]V, w.r*w.c)
			for i := range vals {
				at := newAtom(fmt.Sprintf("solution%s[%d]", id, i))
				rec.x = append(rec.x, at)
				vals[i] = Num{atomPoly(at)}
			}
			it.matSetAll(dh, vals)
			it.cholSolves = append(it.cholSolves, rec)
			return it.forkVal(opaqueAtom("linear algebra library panics while solving "+id), func(b bool) V {
				if b {
					it.throw("lapack: panic while solving")
				}
				return it.forkVal(opaqueAtom("system "+id+" is ill-conditioned"), func(b bool) V {
					if b {
						// the only error SolveVecTo returns has the type mat.Condition
						cond := psym("condition number")
						facts.positive = append(facts.positive, cond.Sub(intPoly(1000000)))
						return Iface{typ: it.prog.extType("gonum.org/v1/gonum/mat", "Condition"), val: Num{cond}}
					}
					return Iface{}
				})
			})
		})
	}
	reg("Cholesky", "SolveVecTo", solve(false))
	reg("Cholesky", "SolveTo", solve(true))
}

type cholSolve struct {
	a, b []V
	x    []*NAtom
	ctx  *Ctx
}

func (it *Interp) matMul(x, y *matView) []V {
	r := make([]V, x.r*y.c)
	for i := 0; i < x.r; i++ {
		for j := 0; j < y.c; j++ {
			s := V(Num{zeroPoly})
			for k := 0; k < x.c; k++ {
				s = it.add(s, it.mul(x.at(i, k), y.at(k, j)))
			}
			r[i*y.c+j] = s
		}
	}
	return r
}

// flat makes sure that a matrix doesn't use an array within another object.
func flat(s Slice) {
	if s.path != "" {
		unsupported("matrix data within a larger object")
	}
}
