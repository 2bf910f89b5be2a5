package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

const exact = "exact arithmetic (floating-point rounding is not modelled; tolerances are treated as positive infinitesimals)"

func (it *Interp) methodFn(elem V, name string) *ssa.Function {
	if i, ok := it.ctx().restrict(elem).(Iface); ok && i.typ != nil {
		return it.prog.methodByName(i.typ, name)
	}
	return nil
}

// construct name of a method of the concrete element type, e.g. (*frame).Assemble
func (it *Interp) methodName(elem V, name string) string {
	if fn := it.methodFn(elem, name); fn != nil {
		return fn.RelString(it.prog.def.Pkg)
	}
	return name
}

// checkAssemble analyses Assemble on arbitrary prior contents and compares all entries of the global
// matrices with the specification.
func (k *Check) checkAssemble(rule string, e *elemSpec, elem V, s *system) {
	it := k.it
	kp, k0 := s.symMatrix("k")
	rp, r0 := s.vec("r")
	dp, d0 := s.vec("d")
	what := it.methodName(elem, "Assemble") + " of " + e.kind
	it.callMethod(elem, "Assemble", s.layout, kp, rp, dp)
	kl, fl, ok := condense(e.localStiffness(), e.localLoads(), e.hinges)
	if !ok {
		k.fail(rule, what, "hinges %v make the element a mechanism but are accepted", e.hinges)
		return
	}
	T := e.T()
	kg := mmul(transpose(T), mmul(kl, T))
	keys := e.globalKeys()
	at := map[int]int{}
	for i, key := range keys {
		p, ok := s.pos[key]
		if !ok {
			k.fail(rule, what, "%v isn't among the degrees of freedom of the element", key)
			return
		}
		at[p] = i
	}
	name := map[int]string{}
	for key, p := range s.pos {
		name[p] = key
	}
	kh, rh, dh := it.hdr(kp), it.hdr(rp), it.hdr(dp)
	for i := 0; i < s.n; i++ {
		gi, ini := at[i]
		if e.kind == "frame3d" && !ini {
			continue // out of the plane
		}
		for j := i; j < s.n; j++ {
			gj, inj := at[j]
			if e.kind == "frame3d" && !inj {
				continue
			}
			want := k0[i][j]
			if ini && inj {
				want = want.Add(kg[gi][gj])
			}
			siteHint = it.writeSite(kh.o, kh.idx(i, j))
			k.eq(rule, what, fmt.Sprintf("stiffness entry (%v, %v)", name[i], name[j]), it.matAt(kh, i, j), want)
		}
		want := r0[i]
		if ini {
			for l := range fl {
				want = want.Add(T[l][gi].Mul(fl[l]))
			}
		}
		siteHint = it.writeSite(rh.o, rh.idx(i, 0))
		k.eq(rule, what, fmt.Sprintf("load entry %v", name[i]), it.matAt(rh, i, 0), want)
		siteHint = it.writeSite(dh.o, dh.idx(i, 0))
		k.eq(rule, what, fmt.Sprintf("displacement entry %v", name[i]), it.matAt(dh, i, 0), d0[i])
	}
	siteHint = ""
}

type variant struct {
	id0, id1 string
	fixed    []string
}

var variants = []variant{
	{"A", "B", []string{"Z/Ux"}},
	{"B", "A", []string{"A/Ux", "B/Uz", "Z/Ux"}},
	// all pairs of degrees of freedom in the opposite order; those the element doesn't have are left out
	{"A", "B", []string{"A/Uz", "B/Uz", "Z/Ux"}},
	{"A", "B", []string{"A/Uy", "A/Phiy", "B/Uy", "B/Phiy", "Z/Ux"}},
}

func (it *Interp) geom(kind, id0, id1 string) *geometry {
	if kind == "truss3d" {
		return it.spatial(id0, id1)
	}
	return it.planar(id0, id1)
}

// build constructs an element without hinges problems and its numbering.
func (k *Check) build(rule string, e *elemSpec, v variant) (V, *system, bool) {
	it := k.it
	elem, err := it.construct(e, "el")
	if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
		return nil, nil, false
	}
	return elem, k.systemFor(elem, v), true
}

func (k *Check) systemFor(elem V, v variant) *system {
	extra := []string{"A/Uz", "A/Ux", "B/Uz", "M/Phiy", "Z/Ux"}
	have := map[string]bool{}
	for _, key := range append(k.it.indexKeys(elem), extra...) {
		have[key] = true
	}
	var fixed []string
	for _, f := range v.fixed {
		if have[f] {
			fixed = append(fixed, f)
		}
	}
	return k.newSystem([]V{elem}, extra, fixed)
}

var elementKinds = []string{"truss2d", "truss3d", "frame2d"}

func (k *Check) addLoads(rule string, e *elemSpec, elem V) {
	it := k.it
	for _, l := range e.loads {
		ok := it.callMethod(elem, "AddLoad", it.newLoad(l))
		k.holds(rule, it.methodName(elem, "AddLoad")+" of "+e.kind, "acceptance of a "+l.String()+" load", ok)
	}
}

func (it *Interp) newDirac(kind string, L *Poly) load {
	a := psym("α")
	facts.positive = append(facts.positive, intPoly(1).Sub(a))
	return load{typ: "dirac", kind: kind, pos: a.Mul(L), v0: sym("F" + kind)}
}

func linearLoad(kind string) load {
	return load{typ: "linear", kind: kind, v0: sym("q0" + kind), v1: sym("q1" + kind)}
}

func constLoad(kind string) load { return load{typ: "const", kind: kind, v0: sym("q" + kind)} }

func axisParallel(it *Interp, id0, id1 string, d [3]int64) *geometry {
	g := &geometry{id0: id0, id1: id1, L: psym("L")}
	g.c, g.s = intPoly(d[0]), intPoly(d[2])
	g.cx, g.cy, g.cz = intPoly(d[0]), intPoly(d[1]), intPoly(d[2])
	x, y, z := sym("x0"), sym("y0"), sym("z0")
	g.n0 = it.node(id0, x, y, z)
	g.n1 = it.node(id1, x.Add(g.cx.Mul(g.L)), y.Add(g.cy.Mul(g.L)), z.Add(g.cz.Mul(g.L)))
	return g
}

func runC01(k *Check) {
	k.nameScenarios("element-stiffness", false, func(e *elemSpec, elem V, s *system) {
		k.checkAssemble("element-stiffness", e, elem, s)
	})
	for _, kind := range elementKinds {
		for vi, v := range variants {
			k.scenario(fmt.Sprintf("%s, numbering %d", kind, vi), func(it *Interp) {
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				elem, s, ok := k.build("element-stiffness", e, v)
				if ok {
					k.checkAssemble("element-stiffness", e, elem, s)
				}
			})
		}
		k.scenario(kind+", special directions", func(it *Interp) {
			// Axis-parallel elements degenerate some divisions and signs; check them on their own
			dirs := [][3]int64{{1, 0, 0}, {-1, 0, 0}, {0, 0, 1}, {0, 0, -1}}
			if kind == "truss3d" {
				dirs = append(dirs, [3]int64{0, 1, 0}, [3]int64{0, -1, 0})
			}
			for _, d := range dirs {
				g := axisParallel(it, "A", "B", d)
				e := &elemSpec{kind: kind, g: g, m: newMatParams()}
				for _, v := range variants {
					v.id0, v.id1 = "A", "B"
					elem, s, ok := k.build("element-stiffness", e, v)
					if ok {
						k.checkAssemble("element-stiffness", e, elem, s)
					}
				}
			}
		})
		if kind == "truss3d" {
			for plane := 0; plane < 3; plane++ {
				k.scenario(fmt.Sprintf("%s, within coordinate plane %d", kind, plane), func(it *Interp) {
					g := it.planar("A", "B")
					x, y, z := sym("x0"), sym("y0"), sym("z0")
					d := [3]*Poly{g.c, g.s, zeroPoly}
					g.cx, g.cy, g.cz = d[plane], d[(plane+1)%3], d[(plane+2)%3]
					g.n0 = it.node("A", x, y, z)
					g.n1 = it.node("B", x.Add(g.cx.Mul(g.L)), y.Add(g.cy.Mul(g.L)), z.Add(g.cz.Mul(g.L)))
					e := &elemSpec{kind: kind, g: g, m: newMatParams(), loads: []load{linearLoad("Ux")}}
					for _, v := range variants {
						v.id0, v.id1 = "A", "B"
						if elem, s, ok := k.build("element-stiffness", e, v); ok {
							k.addLoads("element-stiffness", e, elem)
							k.checkAssemble("element-stiffness", e, elem, s)
						}
					}
				})
			}
		}
	}
}

// mustAccept lists the hinge combinations every element type is documented to condense.
func mustAccept(e *elemSpec) bool {
	in := func(set []int, all [][]int) bool {
		for _, a := range all {
			if fmt.Sprint(a) == fmt.Sprint(set) {
				return true
			}
		}
		return false
	}
	if !e.frame() {
		return len(e.hinges) < 2
	}
	var ax, tr []int
	for _, h := range e.hinges {
		if h%3 == 0 {
			ax = append(ax, h)
		} else {
			tr = append(tr, h)
		}
	}
	return len(ax) < 2 && in(tr, [][]int{{}, {1}, {2}, {4}, {5}, {2, 4}, {2, 5}, {1, 5}})
}

func runC02(k *Check) {
	k.nameScenarios("hinge-condensation", true, func(e *elemSpec, elem V, s *system) {
		k.checkAssemble("hinge-condensation", e, elem, s)
		k.checkInterpolation(e, elem, s, interpRules{hinge: "hinge-force"})
	})
	for _, kind := range append(append([]string{}, elementKinds...), "frame3d") {
		n := 2
		if kind == "frame2d" || kind == "frame3d" {
			n = 6
		}
		for _, h := range subsetsOf(n, n) {
			e0 := &elemSpec{kind: kind, hinges: h}
			vs := variants[:1]
			if k.thor {
				vs = variants
			}
			for vi, v := range vs {
				k.scenario(fmt.Sprintf("%s, hinges %v, numbering %d", kind, h, vi), func(it *Interp) {
					e := &elemSpec{kind: kind, hinges: h, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
					elem, err := it.construct(e, "el")
					bad := it.ctx().restrict(isNil(it.ctx(), it.ctx().restrict(err)))
					b, decided := bad.(Bool)
					if !decided {
						k.fail("hinge-acceptance", e.ctor(), "acceptance of hinges %v depends on %v", h, show(bad))
						return
					}
					if kind != "frame3d" && mustAccept(e0) {
						if !k.expect("hinge-acceptance", e.ctor(), bool(b), "hinges %v are rejected", h) {
							return
						}
					} else if !bool(b) {
						k.pass("hinge-acceptance", e.ctor())
						return
					}
					s := k.systemFor(elem, v)
					e.loads = []load{linearLoad("Ux")}
					if e.frame() {
						e.loads = append(e.loads, linearLoad("Uz"), it.newDirac("Phiy", e.g.L))
					}
					k.addLoads("hinge-load", e, elem)
					k.checkAssemble("hinge-condensation", e, elem, s)
					if kind == "frame3d" {
						return
					}
					k.checkInterpolation(e, elem, s, interpRules{hinge: "hinge-force"})
				})
			}
		}
	}
}

func loadSets(it *Interp, e *elemSpec) map[string][]load {
	L := e.g.L
	r := map[string][]load{
		"none":                  nil,
		"constant Ux":           {constLoad("Ux")},
		"linear Ux":             {linearLoad("Ux")},
		"dirac Ux":              {it.newDirac("Ux", L)},
		"two axial":             {constLoad("Ux"), linearLoad("Ux"), it.newDirac("Ux", L)},
		"dirac Ux at the start": {{typ: "dirac", kind: "Ux", pos: zeroPoly, v0: sym("F")}},
		"dirac Ux at the end":   {{typ: "dirac", kind: "Ux", pos: L, v0: sym("F")}},
	}
	if e.frame() {
		r["constant Uz"] = []load{constLoad("Uz")}
		r["linear Uz"] = []load{linearLoad("Uz")}
		r["dirac Uz"] = []load{it.newDirac("Uz", L)}
		r["dirac Phiy"] = []load{it.newDirac("Phiy", L)}
		r["dirac Uz at the start"] = []load{{typ: "dirac", kind: "Uz", pos: zeroPoly, v0: sym("F")}}
		r["dirac Uz at the end"] = []load{{typ: "dirac", kind: "Uz", pos: L, v0: sym("F")}}
		r["dirac Phiy at the start"] = []load{{typ: "dirac", kind: "Phiy", pos: zeroPoly, v0: sym("F")}}
		r["dirac Phiy at the end"] = []load{{typ: "dirac", kind: "Phiy", pos: L, v0: sym("F")}}
		r["mixed"] = []load{constLoad("Uz"), linearLoad("Uz"), it.newDirac("Uz", L), it.newDirac("Phiy", L), constLoad("Ux")}
	}
	a, b := psym("α"), psym("β")
	facts.positive = append(facts.positive, intPoly(1).Sub(b), intPoly(1).Sub(a))
	for kind, l := range repeatedLoads(e, a, b) {
		r["repeated "+kind] = l
	}
	return r
}

func runC03(k *Check) {
	k.nameScenarios("element-load", false, func(e *elemSpec, elem V, s *system) {
		k.checkAssemble("element-load", e, elem, s)
	})
	for _, kind := range elementKinds {
		var names []string
		k.scenario(kind+" load sets", func(it *Interp) {
			e := &elemSpec{kind: kind, g: it.geom(kind, "A", "B")}
			for n := range loadSets(it, e) {
				names = append(names, n)
			}
		})
		for _, name := range sorted(names) {
			k.scenario(kind+", load "+name, func(it *Interp) {
				v := variants[0]
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = loadSets(it, e)[name]
				elem, s, ok := k.build("element-load", e, v)
				if ok {
					k.addLoads("element-load", e, elem)
					k.checkAssemble("element-load", e, elem, s)
				}
			})
		}
		for vi, v := range variants {
			k.scenario(fmt.Sprintf("%s, mixed loads, numbering %d", kind, vi), func(it *Interp) {
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = []load{linearLoad("Ux"), it.newDirac("Ux", e.g.L)}
				if e.frame() {
					e.loads = append(e.loads, linearLoad("Uz"), it.newDirac("Phiy", e.g.L))
				}
				if elem, s, ok := k.build("element-load", e, v); ok {
					k.addLoads("element-load", e, elem)
					k.checkAssemble("element-load", e, elem, s)
				}
			})
		}
		for _, n := range []int{9, 18, 40} {
			k.scenario(fmt.Sprintf("%s, %d loads", kind, n), func(it *Interp) {
				v := variants[n%len(variants)]
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = manyLoads(e, n)
				if elem, s, ok := k.build("element-load", e, v); ok {
					k.addLoads("element-load", e, elem)
					k.checkAssemble("element-load", e, elem, s)
				}
			})
		}
		k.scenario(kind+", same load added twice", func(it *Interp) {
			v := variants[1]
			e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
			elem, s, ok := k.build("element-load", e, v)
			if !ok {
				return
			}
			ls := []load{linearLoad("Ux")}
			if e.frame() {
				ls = append(ls, linearLoad("Uz"), it.newDirac("Phiy", e.g.L))
			}
			for _, l := range ls {
				bc := it.newLoad(l)
				for i := 0; i < 2; i++ {
					k.holds("element-load", it.methodName(elem, "AddLoad"), "acceptance", it.callMethod(elem, "AddLoad", bc))
					e.loads = append(e.loads, l)
				}
			}
			k.checkAssemble("element-load", e, elem, s)
		})
	}
}

func init() {
	register(&propSpec{id: "C01", min: 300, assume: []string{exact, "truss2d/frame2d elements lie in a plane of constant y"},
		rule: "abstract interpretation of the constructors and Assemble with arbitrary direction, length, material and prior matrix contents; every entry of the global matrices is compared (polynomial normal form) with Tᵀ·K·T, K derived from the strain energy of linear/cubic shape functions",
		run:  runC01})
	register(&propSpec{id: "C02", min: 300, assume: []string{exact},
		rule: "abstract interpretation of constructors, Assemble and Interpolate for every subset of hinged local degrees of freedom; accepted subsets must assemble the exact static condensation of stiffness and loads, interpolated hinge forces must vanish, the others must return an error",
		run:  runC02})
	register(&propSpec{id: "C03", min: 300, assume: []string{exact, "load positions are in [0, L]"},
		rule: "abstract interpretation of load constructors, AddLoad and Assemble; every entry of the load vector is compared with the work integral of the load over the shape functions in global axes, for single, mixed and repeated loads; stiffness entries must not change",
		run:  runC03})
}
