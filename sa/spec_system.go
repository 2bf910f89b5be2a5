package main

// Whole models: equilibrium and compatibility of everything that meets at a node, from the document to the results.

import (
	"fmt"
)

// systemCase is a model; the same data are written to a document and used by the specification.
type systemCase struct {
	name  string
	elems []sysElem
	fixed []cond
	links []support
	loads []cond
	at    map[string][3]*Poly // node coordinates
	mats  map[string]*matParams
	css   map[string]*matParams
}

type sysElem struct {
	id, mat, cs string
	e           *elemSpec
}

func (c *systemCase) doc() *JNode {
	nodes, md, cd, ed, dir, neu, links := jobj(), jobj(), jobj(), jobj(), jobj(), jobj(), jobj()
	list := func(o *JNode, key string) *JNode {
		for _, e := range o.obj {
			if e.key.(Str).s == key {
				return e.val
			}
		}
		l := jarr()
		o.set(key, l)
		return l
	}
	for _, n := range keysOf(c.at) {
		nodes.set(n, coords(c.at[n]))
	}
	for _, n := range keysOf(c.mats) {
		md.set(n, materialDoc(c.mats[n]))
	}
	for _, n := range keysOf(c.css) {
		cd.set(n, constantsDoc(c.css[n]))
	}
	names := map[string]string{"Ux": "qx", "Uz": "qz"}
	point := map[string]string{"Ux": "Fx", "Uz": "Fz", "Uy": "Fy", "Phiy": "My"}
	for _, x := range c.elems {
		ed.set(x.id, elementDoc(x.e, true, x.mat, x.cs))
		for _, l := range x.e.loads {
			n := names[l.kind]
			if l.typ == "dirac" {
				n = point[l.kind]
			}
			list(neu, x.id).arr = append(list(neu, x.id).arr, loadDoc(n, l, x.e.g.L))
		}
	}
	for _, f := range c.fixed {
		list(dir, f.node).arr = append(list(dir, f.node).arr, jobj(f.dof, jnum(f.v)))
	}
	for _, f := range c.loads {
		list(neu, f.node).arr = append(list(neu, f.node).arr, jobj(point[f.dof], jnum(f.v)))
	}
	for _, s := range c.links {
		n, from := splitKey(s.from)
		_, to := splitKey(s.to)
		list(links, n).arr = append(list(links, n).arr, jobj("from", jstr(from), "to", jstr(to), "angle", jnum(s.angle)))
	}
	return jobj("nodes", nodes, "material", md, "crosssection", cd, "elements", ed, "dirichlet", dir, "neumann", neu, "links", links)
}

// geomOf is the geometry between two nodes of known distance.
func (c *systemCase) geomOf(id0, id1 string, L *Poly) *geometry {
	g := &geometry{id0: id0, id1: id1, L: L}
	d := func(i int) *Poly { return c.at[id1][i].Sub(c.at[id0][i]).Div(L) }
	g.cx, g.cy, g.cz = d(0), d(1), d(2)
	g.c, g.s = g.cx, g.cz
	return g
}

func systemCases(thorough, numbers bool) []func() *systemCase {
	type el struct {
		id, kind, n0, n1 string
		hinges           []int
		loads            string
	}
	type model struct {
		name   string
		nodes  map[string][3]int64
		els    []el
		length map[string]int64
		fixed  []string // a prefix ! prescribes a settlement
		links  []string
		free   bool  // may be unstable: no solution in numbers
		scale  int64 // of coordinates
	}
	tri := map[string][3]int64{"A": {0, 0, 0}, "B": {4, 0, 0}, "C": {4, 0, 3}}
	models := []model{
		{"cantilever", tri, []el{{"AB", "frame2d", "A", "B", nil, "all"}}, nil, []string{"A/Ux", "A/Uz", "A/Phiy"}, nil, false, 0},
		{"cantilever, supported at its end", tri, []el{{"AB", "frame2d", "B", "A", nil, "all"}}, nil, []string{"A/Uz", "!A/Ux", "!A/Phiy"}, nil, false, 0},
		{"loads at ends", tri, []el{{"AB", "frame2d", "A", "B", nil, "ends"}, {"CB", "frame2d", "C", "B", []int{5}, "ends"}}, nil, []string{"A/Ux", "A/Uz", "A/Phiy", "C/Ux", "!C/Uz"}, nil, false, 0},
		{"loads close to ends and to each other", tri, []el{{"AB", "frame2d", "A", "B", nil, "close"}, {"CB", "frame2d", "C", "B", []int{5}, "close"}}, nil, []string{"A/Ux", "A/Uz", "A/Phiy", "C/Ux", "!C/Uz"}, nil, false, 0},
		{"coincident and opposite loads", tri, []el{{"AB", "frame2d", "A", "B", nil, "twice"}, {"CB", "truss2d", "C", "B", nil, "twice"}}, nil, []string{"A/Ux", "A/Uz", "!A/Phiy", "C/Ux", "!C/Uz"}, nil, false, 0},
		{"inclined cantilever", tri, []el{{"e", "frame2d", "A", "C", nil, "all"}}, nil, []string{"!C/Ux", "!C/Uz", "!C/Phiy"}, nil, false, 0},
		{"bent frame", tri, []el{{"AB", "frame2d", "A", "B", nil, "transverse"}, {"BC", "frame2d", "B", "C", nil, "axial"}}, nil, []string{"A/Ux", "A/Uz", "A/Phiy", "!C/Uz"}, nil, false, 0},
		{"bent frame with a hinge", tri, []el{{"AB", "frame2d", "A", "B", []int{5}, "transverse"}, {"CB", "frame2d", "C", "B", nil, "axial"}}, nil, []string{"A/Ux", "!A/Uz", "A/Phiy", "C/Ux", "C/Uz", "!C/Phiy"}, nil, false, 0},
		{"truss triangle", tri, []el{{"AB", "truss2d", "A", "B", nil, "axial"}, {"BC", "truss2d", "B", "C", nil, "axial"}, {"AC", "truss3d", "A", "C", nil, "axial"}}, nil, []string{"A/Ux", "A/Uz", "!B/Uz", "A/Uy", "!C/Uy"}, nil, false, 0},
		{"frame on an inclined support", tri, []el{{"AC", "frame2d", "A", "C", nil, "all"}}, nil, []string{"A/Ux", "!A/Uz", "A/Phiy"}, []string{"C/Ux/Uz"}, false, 0},
		{"frame and truss on inclined supports", tri, []el{{"AB", "frame2d", "A", "B", []int{2}, "transverse"}, {"BC", "truss2d", "B", "C", nil, "axial"}, {"CA", "truss2d", "C", "A", nil, ""}}, nil, []string{"!C/Uz"}, []string{"A/Uz/Ux", "B/Ux/Uz"}, false, 0},
		{"parallel elements", tri, []el{{"1", "frame2d", "A", "B", nil, "transverse"}, {"2", "frame2d", "B", "A", []int{0}, "all"}, {"3", "truss2d", "B", "A", nil, "axial"}}, nil, []string{"B/Ux", "B/Uz", "!B/Phiy"}, nil, false, 0},
		{"spatial truss", map[string][3]int64{"O": {0, 0, 0}, "P": {1, 2, 2}, "Q": {2, -1, 2}, "R": {6, 3, 2}}, []el{{"a", "truss3d", "O", "P", nil, "axial"}, {"b", "truss3d", "Q", "O", nil, "axial"}, {"c", "truss3d", "O", "R", []int{1}, "axial"}},
			map[string]int64{"a": 3, "b": 3, "c": 7}, []string{"P/Ux", "P/Uy", "!P/Uz", "Q/Ux", "!Q/Uy", "Q/Uz", "R/Ux"}, []string{"R/Uy/Uz"}, false, 0},
	}
	// steep and flat elements, with rational directions
	for _, n := range []int64{1e1, 1e3, 1e5, 1e7} {
		steep := map[string][3]int64{"A": {0, 0, 0}, "B": {2 * n, 0, n*n - 1}, "C": {2*n + 1 - n*n, 0, n*n - 1 - 2*n}}
		length := map[string]int64{"AB": n*n + 1, "BC": n*n + 1, "CB": n*n + 1}
		models = append(models, model{fmt.Sprintf("steep and flat frames, 1:%d", n), steep, []el{{"AB", "frame2d", "A", "B", nil, "all"}, {"CB", "frame2d", "C", "B", []int{5}, "transverse"}}, length, []string{"A/Ux", "A/Uz", "A/Phiy", "!C/Ux", "C/Uz", "C/Phiy"}, nil, false, n * n},
			model{fmt.Sprintf("steep and flat trusses, 1:%d", n), steep, []el{{"AB", "truss3d", "B", "A", nil, "axial"}, {"BC", "truss3d", "B", "C", nil, "axial"}, {"CB", "truss2d", "C", "B", nil, ""}}, length, []string{"A/Ux", "A/Uz", "!C/Ux", "C/Uz", "A/Uy", "B/Uy", "!C/Uy"}, nil, false, n * n})
	}
	// few supports; what balances is decided up to the equations that aren't solvable
	for _, f := range []string{"A/Ux", "!B/Uz", "!B/Phiy"} {
		models = append(models, model{"only support " + f, tri, []el{{"AB", "frame2d", "A", "B", nil, "all"}, {"BC", "frame2d", "B", "C", nil, ""}}, nil, []string{f}, nil, true, 0})
	}
	models = append(models, model{"only an inclined support", tri, []el{{"CA", "frame2d", "C", "A", []int{5}, "all"}}, nil, nil, []string{"A/Uz/Ux"}, true, 0})
	sets := 2
	if thorough {
		sets = 4
	}
	for _, ends := range [][2]string{{"A", "B"}, {"B", "C"}, {"C", "A"}}[:1+sets/4*2] {
		for _, h := range subsetsOf(6, sets+1) {
			if e := (&elemSpec{kind: "frame2d", hinges: h}); len(h) > 0 && mustAccept(e) {
				models = append(models, model{fmt.Sprintf("frame triangle, element %v hinges %v", ends, h), tri, []el{{"h", "frame2d", ends[0], ends[1], h, "all"}, {"AC", "frame2d", "A", "C", nil, "transverse"}, {"CB", "frame2d", "C", "B", nil, "axial"}}, nil,
					[]string{"A/Ux", "!A/Uz", "A/Phiy"}, []string{"C/Uz/Ux"}, true, 0})
			}
		}
	}
	var r []func() *systemCase
	for _, m := range models {
		if numbers && (m.free || len(m.links) > 0) {
			continue // the directions of inclined supports aren't rational
		}
		r = append(r, func() *systemCase {
			sym, psym := sym, psym
			if numbers {
				n := int64(0)
				psym = func(string) *Poly { n += 7; return ratPoly(20+n%59, 20+n*n%31) }
				sym = func(string) *Poly { n += 5; return ratPoly(30-n*n%61, 3) }
			}
			h := psym("h")
			if m.scale > 0 {
				h = h.Div(intPoly(m.scale))
			}
			x, y, z := sym("x"), sym("y"), sym("z")
			up := func(p *Poly, n int64) *Poly { return p.Add(h.Mul(intPoly(n))) }
			c := &systemCase{name: m.name, at: map[string][3]*Poly{}, mats: map[string]*matParams{}, css: map[string]*matParams{}}
			for _, t := range []string{"m", "n"} {
				c.mats[t] = &matParams{E: psym("E" + t), nu: sym("nu" + t), rho: sym("rho" + t)}
				c.css[t] = &matParams{A: psym("A" + t), Iyy: psym("Iyy" + t), Izz: psym("Izz" + t)}
			}
			c.css["n"].Ixx, c.css["n"].roll = psym("Ixx"), psym("roll")
			for n, p := range m.nodes {
				c.at[n] = [3]*Poly{up(x, p[0]), up(y, p[1]), up(z, p[2])}
			}
			for i, e := range m.els {
				n := m.length[e.id]
				if n == 0 {
					n = map[string]int64{"AB": 4, "BA": 4, "BC": 3, "CB": 3, "AC": 5, "CA": 5}[e.n0+e.n1]
				}
				L := h.Mul(intPoly(n))
				mat, cs := []string{"m", "n"}[i%2], []string{"m", "n", "m"}[i%3]
				s := &elemSpec{kind: e.kind, hinges: e.hinges, g: c.geomOf(e.n0, e.n1, L), m: c.mats[mat].with(c.css[cs])}
				pt := func(kind string, a, b int64) load {
					return load{typ: "dirac", kind: kind, pos: L.Mul(ratPoly(a, b)), v0: sym(e.id + "F" + kind)}
				}
				lin := func(kind string) load {
					return load{typ: "linear", kind: kind, v0: sym(e.id + "q0" + kind), v1: sym(e.id + "q1" + kind)}
				}
				con := func(kind string) load { return load{typ: "const", kind: kind, v0: sym(e.id + "q" + kind)} }
				switch e.loads {
				case "axial":
					s.loads = []load{lin("Ux"), pt("Ux", 1, 3), con("Ux")}
				case "transverse":
					s.loads = []load{lin("Uz"), pt("Uz", 2, 5), con("Uz")}
				case "all":
					s.loads = []load{pt("Phiy", 1, 4), lin("Ux"), lin("Uz"), pt("Uz", 2, 3), pt("Ux", 1, 7), con("Uz")}
				}
				if e.loads == "close" {
					for i, kind := range []string{"Uz", "Ux", "Phiy"} {
						for j, n := range []int64{1e3, 1e6, 1e9} {
							l, r := pt(kind, int64(1+i), n), pt(kind, n-int64(1+i), n)
							l.v0, r.v0 = l.v0.Scale(ratInt(j+2)), r.v0.Scale(ratInt(j+5))
							s.loads = append(s.loads, l, r)
						}
					}
				}
				if e.loads == "twice" {
					for _, kind := range map[bool][]string{true: {"Uz", "Ux", "Phiy"}, false: {"Ux"}}[s.frame()] {
						a, b, c, d := pt(kind, 1, 3), pt(kind, 1, 3), pt(kind, 1, 3), pt(kind, 2, 3)
						b.v0, d.v0 = b.v0.Scale(ratInt(3)), d.v0.Neg()
						s.loads = append(s.loads, a, b, c, d)
						if kind != "Phiy" {
							x, y, z := con(kind), lin(kind), lin(kind)
							y.v0, y.v1, z.v0, z.v1 = x.v0, x.v0.Neg(), x.v0.Neg(), zeroPoly
							s.loads = append(s.loads, x, x, y, y, z)
						}
					}
				}
				if e.loads == "ends" {
					s.loads = []load{pt("Phiy", 1, 1), lin("Ux"), lin("Uz"), pt("Uz", 0, 1), pt("Ux", 1, 1), pt("Uz", 1, 2)}
					more := []load{pt("Phiy", 0, 1), pt("Uz", 1, 1), pt("Ux", 0, 1)}
					for i := range more {
						more[i].v0 = more[i].v0.Scale(ratInt(3))
					}
					s.loads = append(s.loads, more...)
				}
				c.elems = append(c.elems, sysElem{e.id, mat, cs, s})
			}
			settled := 0
			for _, f := range m.fixed {
				v := zeroPoly
				if f[0] == '!' {
					f, v = f[1:], psym("w")
					if settled++; settled == 2 { // the first two are opposite
						for _, g := range c.fixed {
							if !g.v.IsZero() {
								v = g.v.Neg()
							}
						}
					} else if settled > 2 {
						v = psym(fmt.Sprint("w", settled))
					}
				}
				n, d := splitKey(f)
				c.fixed = append(c.fixed, cond{n, d, v})
			}
			// loads everywhere
			dofs := map[string]bool{}
			for _, e := range c.elems {
				for _, key := range e.e.globalKeys() {
					dofs[key] = true
				}
			}
			for i, l := range keysOf(dofs) {
				n, d := splitKey(l)
				c.loads = append(c.loads, cond{n, d, sym(fmt.Sprint("P", i))})
			}
			for i, l := range m.links {
				from, to := splitKey(l)
				n, _ := splitKey(from)
				c.links = append(c.links, support{from, n + "/" + to, sym(fmt.Sprint("φ", i))})
			}
			return c
		})
	}
	return r
}

// number is a quantity that doesn't depend on unknown conditions.
func (k *Check) number(v V) *Poly {
	n, ok := k.it.ctx().restrict(v).(Num)
	if !ok {
		unsupported("quantity %v depends on conditions", show(v))
	}
	return n.p
}

func runC28(k *Check) {
	const rule = "system-equilibrium"
	for _, numbers := range []bool{false, true} {
		for i, f := range systemCases(k.thor, numbers) {
			c := f()
			kind := map[bool]string{false: "symbolic", true: "numerical"}[numbers]
			bothOrders(k, kind+" "+c.name, func(it *Interp) {
				c := systemCases(k.thor, numbers)[i]()
				if !numbers {
					k.summarise()
				}
				p, ok := k.mustParse(rule, c.doc())
				if !ok {
					return
				}
				pp := it.ptrTo("problem", it.prog.typ("Problem"), p)
				lay, err := it.call2("NewEqLayout", pp)
				k.errNil(rule, "NewEqLayout", "numbering a valid model", err)
				// the answer of the equation solver and what is missing for it to be a solution
				var x []*NAtom
				var missing []*Poly
				strategy := it.stubSolver(func(a V, b, xp Ptr) V {
					va, hb, hx := it.view(a), it.hdr(b), it.hdr(xp)
					x, missing = nil, nil
					answer := make([]*Poly, hx.rows)
					if numbers {
						answer = k.eliminate(va, hb)
					}
					for i := range answer {
						if !numbers {
							x = append(x, newAtom(fmt.Sprint("x", i)))
							answer[i] = atomPoly(x[i])
						}
						it.matSet(hx, i, 0, num(answer[i]))
					}
					for i := range answer {
						m := k.number(it.matAt(hb, i, 0)).Neg()
						for j := range answer {
							m = m.Add(k.number(va.at(i, j)).Mul(answer[j]))
						}
						missing = append(missing, m)
					}
					return Iface{}
				})
				solver := it.call1("NewLinearProblemSolver")
				res, err := it.split(it.callMethod(solver, "Solve", pp, it.ctx().restrict(lay), strategy))
				where := it.methodName(solver, "Solve")
				k.errNil(rule, where, "solving a valid model", err)
				k.onSuccess(err, func() {
					if !k.expect(rule, where, len(missing) > 0, "no equation was solved") {
						return
					}
					res := it.ctx().restrict(res)
					tol := intPoly(-1)
					if numbers {
						tol = ratPoly(1, 1e12).Pow(4)
					}
					nv := it.prog.typ("NodalValue")
					one := func(m, key string) *Poly {
						n, d := splitKey(key)
						v, err := it.split(it.callMethod(res, m, it.idx(n, d)))
						k.errNil(rule, it.methodName(res, m), "query of "+key, err)
						return k.number(it.field(it.ctx().restrict(v), nv, "Value"))
					}
					single := func(id, f string) (string, V) {
						v, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct(f), num(tol)))
						k.errNil(rule, it.methodName(res, "Interpolate"), f+" of "+id, err)
						return it.methodName(res, "Interpolate"), it.field(it.ctx().restrict(v), it.prog.typ("Interpolation"), "Piecewise")
					}
					k.balance(rule, c, res, x, missing, one, single)
					all, ok := it.ctx().restrict(it.callMethod(res, "InterpolateAll", num(tol))).(Slice)
					name := it.methodName(res, "InterpolateAll")
					if !ok {
						unsupported("list of all interpolations %v", show(all))
					}
					listed := func(id, f string) (string, V) {
						ti := it.prog.typ("Interpolation")
						for _, v := range it.elems(all) {
							v = it.ctx().restrict(v)
							if leafEqV(it.ctx(), it.field(v, ti, "Element"), Str{id}) && leafEqV(it.ctx(), it.field(v, ti, "Quantity"), it.fct(f)) {
								return name, it.field(v, ti, "Piecewise")
							}
						}
						return name, Slice{}
					}
					lists := map[string]Slice{}
					for _, m := range []string{"Primary", "Reaction"} {
						vs, ok := it.ctx().restrict(it.callMethod(res, m+"All")).(Slice)
						if !ok {
							unsupported("list of all nodal values depends on conditions")
						}
						lists[m] = vs
					}
					fromList := func(m, key string) *Poly {
						n, d := splitKey(key)
						for _, v := range it.elems(lists[m]) {
							v = it.ctx().restrict(v)
							if leafEqV(it.ctx(), it.field(v, nv, "Index"), it.idx(n, d)) {
								return k.number(it.field(v, nv, "Value"))
							}
						}
						k.expect(rule, it.methodName(res, m+"All"), false, "no value for %v in the list", key)
						return zeroPoly
					}
					k.balance(rule, c, res, x, missing, fromList, listed)
				})
			})
		}
	}
}

// eliminate solves a positive definite system of numbers.
func (k *Check) eliminate(a *matView, b *MatHdr) []*Poly {
	n := a.r
	m := make([][]*Poly, n)
	for i := range m {
		for j := 0; j < n; j++ {
			m[i] = append(m[i], k.number(a.at(i, j)))
		}
		m[i] = append(m[i], k.number(k.it.matAt(b, i, 0)))
	}
	for p := range m {
		if m[p][p].IsZero() {
			unsupported("equations of a stable model have a zero pivot")
		}
		for i := range m {
			if i != p {
				f := m[i][p].Div(m[p][p])
				for j := range m[i] {
					m[i][j] = m[i][j].Sub(m[p][j].Mul(f))
				}
			}
		}
	}
	var x []*Poly
	for i := range m {
		x = append(x, m[i][n].Div(m[i][i]))
	}
	return x
}

// balance compares everything that acts on each node, and on the whole model.
func (k *Check) balance(rule string, c *systemCase, res V, x []*NAtom, missing []*Poly, query func(m, key string) *Poly, interp func(id, f string) (string, V)) {
	dofs := map[string]bool{}
	for _, e := range c.elems {
		for _, key := range e.e.globalKeys() {
			dofs[key] = true
		}
	}
	keys := keysOf(dofs)
	// displacement and movable directions
	d, R, F := map[string]*Poly{}, map[string]*Poly{}, map[string]*Poly{}
	rest := map[string]*Poly{} // unbalanced according to the equation solver
	total := map[string]*Poly{}
	for _, key := range keys {
		d[key], R[key], F[key], rest[key], total[key] = query("Primary", key), query("Reaction", key), zeroPoly, zeroPoly, zeroPoly
		for i, a := range x {
			rest[key] = rest[key].Add(d[key].coefOf(a, 1).Mul(missing[i]))
		}
	}
	for _, l := range c.loads {
		F[l.node+"/"+l.dof] = F[l.node+"/"+l.dof].Add(l.v)
	}
	// forces of the elements on the nodes, and end displacements
	open := map[string]bool{} // nodes with loads between them and the end section of an element
	for _, x := range c.elems {
		e := x.e
		fs := []string{"FctNx", "FctUx"}
		if e.frame() {
			fs = append(fs, "FctVz", "FctMy", "FctUz", "FctPhiy")
		}
		var vs []V
		where := ""
		for _, f := range fs {
			w, v := interp(x.id, f)
			where, vs = w, append(vs, v)
		}
		var ps [][]piece
		k.withPieces(vs, func(p [][]piece) { ps = append(ps, p...) })
		if !k.expect(rule, where, len(ps) == len(fs), "interpolation depends on conditions") {
			return
		}
		ends := map[string][2]*Poly{}
		for i, f := range fs {
			if !k.checkTiles(rule, where+" "+f+" of "+x.id, ps[i], e.g.L) {
				return
			}
			first, last := ps[i][0], ps[i][len(ps[i])-1]
			ends[f] = [2]*Poly{first.co.at(zeroPoly), last.co.at(e.g.L)}
		}
		for _, l := range e.loads {
			if l.typ == "dirac" && l.pos.IsZero() {
				open[e.g.id0] = true
			} else if l.typ == "dirac" && l.pos.Sub(e.g.L).IsZero() {
				open[e.g.id1] = true
			}
		}
		for end, id := range []string{e.g.id0, e.g.id1} {
			sg := int64(2*end - 1)
			add := func(dof string, f string, dir *Poly) {
				v := ends[f][end]
				total[id+"/"+dof] = total[id+"/"+dof].Add(v.Mul(dir).Mul(intPoly(sg)))
			}
			if e.kind == "truss3d" {
				add("Ux", "FctNx", e.g.cx)
				add("Uy", "FctNx", e.g.cy)
				add("Uz", "FctNx", e.g.cz)
			} else {
				add("Ux", "FctNx", e.g.c)
				add("Uz", "FctNx", e.g.s)
			}
			if e.frame() {
				add("Ux", "FctVz", e.g.s)
				add("Uz", "FctVz", e.g.c.Neg())
				add("Phiy", "FctMy", intPoly(-1))
			}
			// compatibility
			hinged := map[int]bool{}
			for _, h := range e.hinges {
				hinged[h] = true
			}
			u := func(dof string) *Poly { return d[id+"/"+dof] }
			per := 1
			along := zeroPoly
			if e.kind == "truss3d" {
				along = u("Ux").Mul(e.g.cx).Add(u("Uy").Mul(e.g.cy)).Add(u("Uz").Mul(e.g.cz))
			} else {
				along = u("Ux").Mul(e.g.c).Add(u("Uz").Mul(e.g.s))
			}
			if e.frame() {
				per = 3
			}
			what := fmt.Sprintf("%v at %v of element ", where, id) + x.id
			if !hinged[end*per] {
				k.eq("system-compatibility", what, "axial displacement", ends["FctUx"][end], along)
			}
			if e.frame() && !hinged[end*per+1] {
				k.eq("system-compatibility", what, "deflection", ends["FctUz"][end], u("Ux").Mul(e.g.s).Sub(u("Uz").Mul(e.g.c)))
			}
			if e.frame() && !hinged[end*per+2] {
				k.eq("system-compatibility", what, "rotation", ends["FctPhiy"][end], u("Phiy").Neg())
			}
		}
	}
	for _, key := range keys {
		if n, _ := splitKey(key); open[n] {
			continue
		}
		k.eq(rule, "results of the model", "force on node and degree of freedom "+key+" that isn't balanced",
			total[key].Sub(F[key]).Sub(R[key]).Sub(rest[key]), zeroPoly)
	}
	// the whole model: virtual work of everything on rigid motions
	motions := map[string]func(n, dof string) *Poly{}
	for _, t := range []string{"Ux", "Uy", "Uz"} {
		motions["translation "+t] = func(n, dof string) *Poly {
			if dof == t {
				return intPoly(1)
			}
			return zeroPoly
		}
	}
	motions["rotation about y"] = func(n, dof string) *Poly {
		switch dof {
		case "Ux":
			return c.at[n][2]
		case "Uz":
			return c.at[n][0].Neg()
		case "Phiy":
			return intPoly(1)
		}
		return zeroPoly
	}
	for _, name := range keysOf(motions) {
		v := motions[name]
		sum := zeroPoly
		for _, key := range keys {
			n, dof := splitKey(key)
			sum = sum.Add(v(n, dof).Mul(F[key].Add(R[key]).Add(rest[key])))
		}
		for _, x := range c.elems {
			e := x.e
			at := func(s *Poly, dof string) *Poly { // motion of the point at s
				a, b := v(e.g.id0, dof), v(e.g.id1, dof)
				return a.Add(b.Sub(a).Mul(s).Div(e.g.L))
			}
			work := func(kind string, s *Poly) *Poly {
				switch kind {
				case "Ux":
					r := at(s, "Ux").Mul(e.g.cx).Add(at(s, "Uz").Mul(e.g.cz))
					return r.Add(at(s, "Uy").Mul(e.g.cy))
				case "Uz":
					return at(s, "Ux").Mul(e.g.s).Sub(at(s, "Uz").Mul(e.g.c))
				}
				return v(e.g.id0, "Phiy").Neg()
			}
			for _, l := range e.loads {
				switch l.typ {
				case "dirac":
					sum = sum.Add(l.v0.Mul(work(l.kind, l.pos)))
				default: // linear motion times linear load, integrated exactly
					q0, q1 := l.v0, l.v1
					if l.typ == "const" {
						q1 = q0
					}
					w0, w1 := work(l.kind, zeroPoly), work(l.kind, e.g.L)
					six := ratPoly(1, 6)
					sum = sum.Add(e.g.L.Mul(six).Mul(q0.Mul(w0.Scale(ratInt(2)).Add(w1)).Add(q1.Mul(w0.Add(w1.Scale(ratInt(2)))))))
				}
			}
		}
		k.eq(rule, "results of the model", "virtual work of all loads and reactions on a "+name, sum, zeroPoly)
	}
}

func init() {
	register(&propSpec{
		id: "C28", min: 4000,
		rule:   "abstract interpretation of parsing, numbering, solving and querying whole models with symbolic geometry scale, parameters, loads and settlements: the interpolated end forces of all elements at a node must balance nodal loads and reactions except for what the equation solver's answer (symbolic) leaves unsolved, the virtual work of all loads and reactions on rigid motions must vanish likewise, and interpolated end displacements must be those of the node",
		assume: []string{exact, "the equation solver's answer is arbitrary; equilibrium at free degrees of freedom is decided up to the residual of that answer"},
		run:    runC28,
	})
}
