package main

// Abstract inputs for element formulations and their specification (exact linear theory in the local
// axes x' = (c,s), z' = (s,-c), phi' = -phiy, with v' = -phi').

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type system struct {
	k      *Check
	it     *Interp
	layout V
	n      int
	pos    map[string]int // "A/Ux" → equation number
	keys   []string
}

var dofNames = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"}

func (it *Interp) dof(name string) V { return Int(it.prog.constInt(name)) }
func (it *Interp) fct(name string) V { return Int(it.prog.constInt(name)) }

func (it *Interp) idx(node, dof string) V { return it.indexV(Str{node}, it.dof(dof)) }
func (it *Interp) indexV(node, dof V) V {
	return it.mkStruct(it.prog.typ("Index"), fields{"NodalID": node, "Dof": dof})
}
func (it *Interp) nodalValue(node, dof string, v *Poly) V {
	return it.mkStruct(it.prog.typ("NodalValue"), fields{"Index": it.idx(node, dof), "Value": num(v)})
}

func splitKey(k string) (node, dof string) {
	i := strings.LastIndex(k, "/")
	return k[:i], k[i+1:]
}

func (it *Interp) mkSlice(t string, vals ...V) V {
	return it.sliceOf(it.prog.typ(t), vals)
}

// stubElement is an element that uses the given degrees of freedom.
func (it *Interp) stubElement(id string, keys []string, assemble func(layout V, k, r, d Ptr)) V {
	n := &NativeObj{name: "stubElement"}
	n.implements = func(*types.Interface) bool { return true }
	n.methods = map[string]func(it *Interp, a []V) V{
		"Indices": func(it *Interp, a []V) V {
			for _, key := range keys {
				node, d := splitKey(key)
				it.mapUpdate(a[0], it.idx(node, d), Struct{})
			}
			return nil
		},
		"Assemble": func(it *Interp, a []V) V {
			if assemble != nil {
				assemble(a[0], a[1].(Ptr), a[2].(Ptr), a[3].(Ptr))
			}
			return nil
		},
		"ID":          func(it *Interp, a []V) V { return Str{id} },
		"NumNodes":    func(it *Interp, a []V) V { return Int(2) },
		"AddLoad":     func(it *Interp, a []V) V { return Bool(true) },
		"RemoveLoad":  func(it *Interp, a []V) V { return nil },
		"Interpolate": func(it *Interp, a []V) V { return Slice{} },
	}
	return nativeIface(n)
}

func (it *Interp) stubTransform(pre, post func(layout V, mats ...Ptr)) V {
	n := &NativeObj{name: "stubTransform"}
	n.implements = func(*types.Interface) bool { return true }
	call := func(f func(layout V, mats ...Ptr)) func(it *Interp, a []V) V {
		return func(it *Interp, a []V) V {
			if f != nil {
				var m []Ptr
				for _, x := range a[1:] {
					m = append(m, x.(Ptr))
				}
				f(a[0], m...)
			}
			return nil
		}
	}
	n.methods = map[string]func(it *Interp, a []V) V{"Pre": call(pre), "Post": call(post)}
	return nativeIface(n)
}

// stubSolver is an equation solver whose behaviour the analysis controls.
func (it *Interp) stubSolver(f func(a V, b, x Ptr) V) V {
	n := &NativeObj{name: "stubSolver"}
	n.implements = func(*types.Interface) bool { return true }
	n.methods = map[string]func(it *Interp, a []V) V{
		"SolveLinearSystem": func(it *Interp, a []V) V {
			if f == nil {
				return Iface{}
			}
			return f(a[0], a[1].(Ptr), a[2].(Ptr))
		},
	}
	return nativeIface(n)
}

func (it *Interp) problem(fs fields) V { return it.mkStruct(it.prog.typ("Problem"), fs) }

func (it *Interp) ptrTo(name string, t types.Type, v V) Ptr { return Ptr{o: it.alloc(name, t, v)} }

// newSystem sets up a numbering through the API and recovers it by observing a transformer.
func (k *Check) newSystem(elems []V, extra []string, fixed []string) *system {
	it := k.it
	s := &system{k: k, it: it, pos: map[string]int{}}
	all := append([]V{}, elems...)
	all = append(all, it.stubElement("extra", extra, nil))
	var bcs []V
	for i, f := range fixed {
		node, d := splitKey(f)
		bcs = append(bcs, it.nodalValue(node, d, intPoly(int64(i+1))))
	}
	// the dofs in use
	m := it.newMap()
	for _, e := range all {
		it.callMethod(e, "Indices", m)
	}
	used := map[string]bool{}
	names := map[int]string{}
	for _, d := range dofNames {
		names[it.prog.constInt(d)] = d
	}
	for _, e := range it.content(m.o).(*MapVal).ents {
		idx := e.k
		nd, ok1 := it.field(idx, it.prog.typ("Index"), "NodalID").(Str)
		df, ok2 := it.field(idx, it.prog.typ("Index"), "Dof").(Int)
		if !ok1 || !ok2 || !same(e.has, Bool(true)) {
			unsupported("index set with symbolic entries")
		}
		used[nd.s+"/"+names[int(df)]] = true
	}
	for u := range used {
		s.keys = append(s.keys, u)
	}
	sort.Strings(s.keys)
	s.n = len(s.keys)
	marks := make([]*NAtom, s.n+8)
	tr := it.stubTransform(nil, func(_ V, m ...Ptr) {
		h := it.hdr(m[1])
		it.matFill(h, func(set func(i, j int, v V)) {
			for i := 0; i < h.rows; i++ {
				if marks[i] == nil {
					marks[i] = newAtom(fmt.Sprintf("mark%d", i))
				}
				set(i, 0, num(atomPoly(marks[i])))
			}
		})
		s.n = h.rows
	})
	p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
		"Elements":     it.mkSlice("Element", all...),
		"Dirichlet":    it.mkSlice("NodalValue", bcs...),
		"EqTransforms": it.mkSlice("Transformer", tr),
	}))
	lay, err := it.call2("NewEqLayout", p)
	if b, ok := isNil(it.ctx(), it.ctx().restrict(err)).(Bool); !ok || !bool(b) {
		unsupported("numbering the probe problem fails")
	}
	// matrices must not contain the real elements' contributions: use stubs with the same indices
	stub := it.stubElement("all", s.keys, nil)
	p2 := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
		"Elements":     it.mkSlice("Element", stub),
		"Dirichlet":    it.mkSlice("NodalValue", bcs...),
		"EqTransforms": it.mkSlice("Transformer", tr),
	}))
	solver := it.call1("NewLinearProblemSolver")
	res, err := it.split(it.callMethod(solver, "Solve", p2, lay, it.stubSolver(nil)))
	if b, ok := isNil(it.ctx(), it.ctx().restrict(err)).(Bool); !ok || !bool(b) {
		unsupported("solving the probe problem fails")
	}
	if s.n != len(s.keys) {
		k.fail("numbering", "NewEqLayout", "%d unknowns for %d degrees of freedom", s.n, len(s.keys))
	}
	for _, key := range s.keys {
		node, d := splitKey(key)
		v, err := it.split(it.callMethod(res, "Primary", it.idx(node, d)))
		if b, ok := isNil(it.ctx(), it.ctx().restrict(err)).(Bool); !ok || !bool(b) {
			unsupported("query of %v fails", key)
		}
		val := it.ctx().restrict(it.field(v, it.prog.typ("NodalValue"), "Value"))
		for i, a := range marks {
			if n, ok := val.(Num); ok && a != nil && n.p.Equal(atomPoly(a)) {
				s.pos[key] = i
			}
		}
		if _, ok := s.pos[key]; !ok {
			unsupported("equation number of %v can't be recovered", key)
		}
	}
	s.layout = lay
	return s
}

// matrices with arbitrary symmetric/vector content
type mats struct {
	k, r, d    Ptr
	k0, r0, d0 [][]*Poly
}

func (s *system) symMatrix(name string) (Ptr, [][]*Poly) {
	it := s.it
	p := it.newSym(s.n)
	h := it.hdr(p)
	v := make([][]*Poly, s.n)
	for i := range v {
		v[i] = make([]*Poly, s.n)
	}
	it.matFill(h, func(set func(i, j int, v V)) {
		for i := range v {
			for j := i; j < s.n; j++ {
				v[i][j] = sym(fmt.Sprintf("%s_%d_%d", name, i, j))
				v[j][i] = v[i][j]
				set(i, j, num(v[i][j]))
			}
		}
	})
	return p, v
}

func (s *system) vec(name string) (Ptr, []*Poly) {
	it := s.it
	p := it.newVec(s.n)
	h := it.hdr(p)
	v := make([]*Poly, s.n)
	for i := range v {
		v[i] = sym(fmt.Sprintf("%s_%d", name, i))
		it.matSet(h, i, 0, num(v[i]))
	}
	return p, v
}

// geometry ------------------------------------------------------------------

type geometry struct {
	L          *Poly
	c, s       *Poly // planar direction
	cx, cy, cz *Poly // spatial direction
	n0, n1     Ptr
	id0, id1   string
}

func (it *Interp) node(id string, x, y, z *Poly) Ptr {
	t := it.prog.typ("Node")
	return it.ptrTo("node "+id, t, it.mkStruct(t, fields{"ID": Str{id}, "X": num(x), "Y": num(y), "Z": num(z)}))
}

func (it *Interp) planar(id0, id1 string) *geometry {
	g := &geometry{id0: id0, id1: id1}
	g.L = psym("L")
	ca := newAtom("c")
	sa := newAtom("s")
	sa.sq = intPoly(1).Sub(atomPoly(ca).Mul(atomPoly(ca)))
	g.c, g.s = atomPoly(ca), atomPoly(sa)
	x, y, z := sym("x0"), sym("y0"), sym("z0")
	g.n0 = it.node(id0, x, y, z)
	g.n1 = it.node(id1, x.Add(g.c.Mul(g.L)), y, z.Add(g.s.Mul(g.L)))
	g.cx, g.cy, g.cz = g.c, zeroPoly, g.s
	return g
}

func (it *Interp) spatial(id0, id1 string) *geometry {
	g := &geometry{id0: id0, id1: id1}
	g.L = psym("L")
	cx, cy, cz := newAtom("cx"), newAtom("cy"), newAtom("cz")
	X, Y := atomPoly(cx), atomPoly(cy)
	cz.sq = intPoly(1).Sub(X.Mul(X)).Sub(Y.Mul(Y))
	g.cx, g.cy, g.cz = X, Y, atomPoly(cz)
	x, y, z := sym("x0"), sym("y0"), sym("z0")
	g.n0 = it.node(id0, x, y, z)
	g.n1 = it.node(id1, x.Add(g.cx.Mul(g.L)), y.Add(g.cy.Mul(g.L)), z.Add(g.cz.Mul(g.L)))
	return g
}

type matParams struct {
	E, nu, rho, A, Iyy, Izz, Ixx, roll *Poly
	rect                               bool // torsion constant not stated
}

// msym is a new positive number of any magnitude, possibly smaller than any tolerance.
func msym(name string) *Poly {
	a := posAtom(name)
	a.mini = true
	return atomPoly(a)
}

func newMatParams() *matParams {
	return &matParams{E: msym("E"), nu: sym("nu"), rho: sym("rho"), A: msym("A"), Iyy: msym("Iyy"), Izz: msym("Izz"), Ixx: sym("Ixx"), roll: sym("roll")}
}

func (it *Interp) crossSection(m *matParams) V {
	n := &NativeObj{name: "stubCrossSection"}
	n.implements = func(*types.Interface) bool { return true }
	get := func(p *Poly) func(*Interp, []V) V { return func(*Interp, []V) V { return num(p) } }
	n.methods = map[string]func(*Interp, []V) V{"Area": get(m.A), "Iyy": get(m.Iyy), "Izz": get(m.Izz), "Ixx": get(m.Ixx), "RollAngle": get(m.roll)}
	return nativeIface(n)
}

func (it *Interp) material(m *matParams) Ptr {
	t := it.prog.typ("Material")
	return it.ptrTo("material", t, it.mkStruct(t, fields{"CrossSection": it.crossSection(m), "YoungsModulus": num(m.E), "PoissonsRatio": num(m.nu), "Density": num(m.rho)}))
}

func (it *Interp) hingeMap(keys ...string) V {
	var kv []V
	for _, h := range keys {
		n, d := splitKey(h)
		kv = append(kv, it.idx(n, d), Struct{})
	}
	return it.newMap(kv...)
}

// element specification --------------------------------------------------------

type load struct {
	typ  string // dirac, const, linear
	kind string
	pos  *Poly
	v0   *Poly
	v1   *Poly
}

func (l load) String() string { return l.typ + " " + l.kind }

type elemSpec struct {
	kind   string
	g      *geometry
	m      *matParams
	hinges []int // local dofs
	loads  []load
}

// local dofs: truss: u0,u1; frame: u0,v0,phi0,u1,v1,phi1
func (e *elemSpec) frame() bool { return strings.HasPrefix(e.kind, "frame") }

func (e *elemSpec) nloc() int {
	if e.frame() {
		return 6
	}
	return 2
}

// localHingeName is the index under which a local dof is hinged.
func (e *elemSpec) localHingeName(i int) string {
	id := e.g.id0
	if i >= e.nloc()/2 {
		id = e.g.id1
	}
	if !e.frame() {
		return id + "/Ux"
	}
	return id + "/" + []string{"Ux", "Uz", "Phiy"}[i%3]
}

func (e *elemSpec) ctor() string {
	return map[string]string{"truss2d": "NewTruss2d", "truss3d": "NewTruss3d", "frame2d": "NewFrame2d", "frame3d": "NewFrame3d"}[e.kind]
}

func (e *elemSpec) globalKeys() []string {
	var d []string
	switch e.kind {
	case "truss2d":
		d = []string{"Ux", "Uz"}
	case "truss3d":
		d = []string{"Ux", "Uy", "Uz"}
	case "frame2d", "frame3d": // only the plane of a 3d frame is specified
		d = []string{"Ux", "Uz", "Phiy"}
	}
	var r []string
	for _, id := range []string{e.g.id0, e.g.id1} {
		for _, x := range d {
			r = append(r, id+"/"+x)
		}
	}
	return r
}

// T[i][j]: local dof i in terms of global dof j (order of globalKeys)
func (e *elemSpec) T() [][]*Poly {
	g := e.g
	ng := len(e.globalKeys())
	t := zeros(e.nloc(), ng)
	switch e.kind {
	case "truss2d":
		for n := 0; n < 2; n++ {
			t[n][2*n], t[n][2*n+1] = g.c, g.s
		}
	case "truss3d":
		for n := 0; n < 2; n++ {
			t[n][3*n], t[n][3*n+1], t[n][3*n+2] = g.cx, g.cy, g.cz
		}
	case "frame2d", "frame3d":
		for n := 0; n < 2; n++ {
			t[3*n][3*n], t[3*n][3*n+1] = g.c, g.s
			t[3*n+1][3*n], t[3*n+1][3*n+1] = g.s, g.c.Neg()
			t[3*n+2][3*n+2] = intPoly(-1)
		}
	}
	return t
}

func zeros(r, c int) [][]*Poly {
	m := make([][]*Poly, r)
	for i := range m {
		m[i] = make([]*Poly, c)
		for j := range m[i] {
			m[i][j] = zeroPoly
		}
	}
	return m
}

func mmul(a, b [][]*Poly) [][]*Poly {
	r := zeros(len(a), len(b[0]))
	for i := range a {
		for j := range b[0] {
			s := zeroPoly
			for k := range b {
				if !a[i][k].isZeroSyn() && !b[k][j].isZeroSyn() {
					s = s.Add(a[i][k].Mul(b[k][j]))
				}
			}
			r[i][j] = s
		}
	}
	return r
}

func transpose(a [][]*Poly) [][]*Poly {
	r := zeros(len(a[0]), len(a))
	for i := range a {
		for j := range a[i] {
			r[j][i] = a[i][j]
		}
	}
	return r
}

// upoly is a polynomial in the axial coordinate.
type upoly []*Poly

func (u upoly) add(w upoly) upoly {
	n := max(len(u), len(w))
	r := make(upoly, n)
	for i := range r {
		r[i] = zeroPoly
		if i < len(u) {
			r[i] = r[i].Add(u[i])
		}
		if i < len(w) {
			r[i] = r[i].Add(w[i])
		}
	}
	return r
}
func (u upoly) scale(p *Poly) upoly {
	r := make(upoly, len(u))
	for i := range u {
		r[i] = u[i].Mul(p)
	}
	return r
}
func (u upoly) mul(w upoly) upoly {
	r := make(upoly, len(u)+len(w))
	for i := range r {
		r[i] = zeroPoly
	}
	for i := range u {
		for j := range w {
			r[i+j] = r[i+j].Add(u[i].Mul(w[j]))
		}
	}
	return r
}
func (u upoly) deriv() upoly {
	var r upoly
	for i := 1; i < len(u); i++ {
		r = append(r, u[i].Scale(ratInt(i)))
	}
	return r
}
func (u upoly) integ() upoly {
	r := upoly{zeroPoly}
	for i := range u {
		r = append(r, u[i].Mul(ratPoly(1, int64(i+1))))
	}
	return r
}
func (u upoly) at(x *Poly) *Poly {
	s := zeroPoly
	for i := len(u) - 1; i >= 0; i-- {
		s = s.Mul(x).Add(u[i])
	}
	return s
}
func (u upoly) isZero() bool {
	for _, p := range u {
		if !p.IsZero() {
			return false
		}
	}
	return true
}

// shape functions: axial (linear) and transverse (cubic) per local dof
func (e *elemSpec) shapes() (ax, tr []upoly) {
	L := e.g.L
	i := func(n int64) *Poly { return intPoly(n) }
	inv := func(n int) *Poly { return L.Pow(n) }
	one, zero := upoly{i(1), inv(-1).Neg()}, upoly{zeroPoly, inv(-1)}
	if !e.frame() {
		return []upoly{one, zero}, []upoly{{}, {}}
	}
	h1 := upoly{i(1), i(0), inv(-2).Scale(ratInt(-3)), inv(-3).Scale(ratInt(2))}
	h2 := upoly{i(0), i(1), inv(-1).Scale(ratInt(-2)), inv(-2)}
	h3 := upoly{i(0), i(0), inv(-2).Scale(ratInt(3)), inv(-3).Scale(ratInt(-2))}
	h4 := upoly{i(0), i(0), inv(-1).Neg(), inv(-2)}
	m := i(-1)
	return []upoly{one, {}, {}, zero, {}, {}}, []upoly{{}, h1, h2.scale(m), {}, h3, h4.scale(m)}
}

// localStiffness from the strain energy of the shape functions.
func (e *elemSpec) localStiffness() [][]*Poly {
	ax, tr := e.shapes()
	n := e.nloc()
	k := zeros(n, n)
	EA, EI := e.m.E.Mul(e.m.A), e.m.E.Mul(e.m.Iyy)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a := ax[i].deriv().mul(ax[j].deriv()).integ().at(e.g.L).Mul(EA)
			b := tr[i].deriv().deriv().mul(tr[j].deriv().deriv()).integ().at(e.g.L).Mul(EI)
			k[i][j] = a.Add(b)
		}
	}
	return k
}

// localLoads are the work-equivalent nodal loads.
func (e *elemSpec) localLoads() []*Poly {
	ax, tr := e.shapes()
	f := make([]*Poly, e.nloc())
	for i := range f {
		f[i] = zeroPoly
		for _, l := range e.loads {
			var sh upoly
			switch l.kind {
			case "Ux":
				sh = ax[i]
			case "Uz":
				sh = tr[i]
			case "Phiy": // phi = -v'
				sh = tr[i].deriv().scale(intPoly(-1))
			default:
				unsupported("load kind %v", l.kind)
			}
			switch l.typ {
			case "dirac":
				f[i] = f[i].Add(sh.at(l.pos).Mul(l.v0))
			default:
				f[i] = f[i].Add(sh.mul(l.q(e.g.L)).integ().at(e.g.L))
			}
		}
	}
	return f
}

// q is the intensity of a distributed load.
func (l load) q(L *Poly) upoly {
	if l.typ == "linear" {
		return upoly{l.v0, l.v1.Sub(l.v0).Div(L)}
	}
	return upoly{l.v0}
}

func subset(n int, drop []int) []int {
	var r []int
	for i := 0; i < n; i++ {
		hit := false
		for _, d := range drop {
			hit = hit || d == i
		}
		if !hit {
			r = append(r, i)
		}
	}
	return r
}

// condense eliminates the hinged dofs: K = Krr - Krh Khh⁻¹ Khr, f = fr - Krh Khh⁻¹ fh.
// ok is false if Khh is singular (the hinges make the element a mechanism by itself).
func condense(k [][]*Poly, f []*Poly, h []int) (kc [][]*Poly, fc []*Poly, ok bool) {
	n := len(f)
	kc = zeros(n, n)
	fc = make([]*Poly, n)
	for i := range k {
		copy(kc[i], k[i])
	}
	copy(fc, f)
	// Gaussian elimination of one hinged dof after the other; pivots are single terms here
	todo := append([]int(nil), h...)
	for len(todo) > 0 {
		pick := -1
		for q, i := range todo {
			if !kc[i][i].IsZero() {
				pick = q
				break
			}
		}
		if pick < 0 {
			return nil, nil, false
		}
		p := todo[pick]
		todo = append(todo[:pick], todo[pick+1:]...)
		piv := kc[p][p]
		nk := zeros(n, n)
		nf := make([]*Poly, n)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				nk[i][j] = kc[i][j].Sub(kc[i][p].Mul(kc[p][j]).Div(piv))
			}
			nf[i] = fc[i].Sub(kc[i][p].Mul(fc[p]).Div(piv))
		}
		kc, fc = nk, nf
	}
	return kc, fc, true
}

func subsetsOf(n, maxSize int) [][]int {
	var r [][]int
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) <= maxSize {
			r = append(r, s)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return len(r[i]) < len(r[j]) })
	return r
}

// construct calls the element constructor.
func (it *Interp) construct(e *elemSpec, id string) (elem, err V) {
	var hk []string
	for _, h := range e.hinges {
		hk = append(hk, e.localHingeName(h))
	}
	return it.call2(e.ctor(), Str{id}, e.g.n0, e.g.n1, it.material(e.m), it.hingeMap(hk...))
}

// newLoad calls the load constructor; the load must be valid.
func (it *Interp) newLoad(l load) V {
	switch l.typ {
	case "dirac":
		v, err := it.call2("NewElementConcentratedLoad", it.dof(l.kind), num(l.pos), num(l.v0))
		if b, ok := isNil(it.ctx(), it.ctx().restrict(err)).(Bool); !ok || !bool(b) {
			unsupported("a valid concentrated load is rejected")
		}
		return v
	case "const":
		return it.call1("NewElementConstantLoad", it.dof(l.kind), num(l.v0))
	}
	return it.call1("NewElementLinearLoad", it.dof(l.kind), num(l.v0), num(l.v1))
}

func stubAll(*types.Interface) bool { return true }
