package main

// Adding/removing element loads, construction of elements.

import (
	"fmt"
	"go/types"
	"strings"
)

var allKinds = []string{"truss2d", "truss3d", "frame2d", "frame3d"}

func (e *elemSpec) accepts(typ, dof string) bool {
	switch dof {
	case "Ux":
		return true
	case "Uz":
		return e.frame()
	case "Phiy":
		return e.frame() && typ == "dirac"
	}
	return false
}

// assembled returns the contributions of an element to zero matrices.
func (k *Check) assembled(elem V, s *system) (K [][]V, r []V) {
	it := k.it
	kp, rp, dp := it.newSym(s.n), it.newVec(s.n), it.newVec(s.n)
	it.callMethod(elem, "Assemble", s.layout, kp, rp, dp)
	kh, rh := it.hdr(kp), it.hdr(rp)
	for i := 0; i < s.n; i++ {
		row := make([]V, s.n)
		for j := range row {
			row[j] = it.matAt(kh, i, j)
		}
		K = append(K, row)
		r = append(r, it.matAt(rh, i, 0))
	}
	return K, r
}

// sameBehaviour compares two elements by everything they contribute and interpolate.
func (k *Check) sameBehaviour(rule, what string, a, b V, s *system) {
	it := k.it
	Ka, ra := k.assembled(a, s)
	Kb, rb := k.assembled(b, s)
	for i := range ra {
		k.eq(rule, what, "load entry", ra[i], rb[i])
		for j := range Ka[i] {
			k.eq(rule, what, "stiffness entry", Ka[i][j], Kb[i][j])
		}
	}
	dp, _ := s.vec("u")
	for _, f := range fctNames {
		x := it.callMethod(a, "Interpolate", s.layout, it.fct(f), dp)
		y := it.callMethod(b, "Interpolate", s.layout, it.fct(f), dp)
		k.withPieces([]V{x, y}, func(ps [][]piece) {
			g, w := showPieces(it.ctx(), ps[0]), showPieces(it.ctx(), ps[1])
			k.expect(rule, what, g == w, "%v is %v, must be %v", f, g, w)
		})
	}
}

func (k *Check) elemFor(rule, kind string, hinges []int) (*elemSpec, V, *system, bool) {
	it := k.it
	e := &elemSpec{kind: kind, hinges: hinges, g: it.geom(kind, "A", "B"), m: newMatParams()}
	elem, err := it.construct(e, "el")
	if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
		return nil, nil, nil, false
	}
	return e, elem, k.systemFor(elem, variants[0]), true
}

// judge compares an element with the specification including its loads.
func (k *Check) judge(rule string, e *elemSpec, elem V, s *system) {
	if e.kind == "frame3d" {
		ref, err := k.it.construct(e, "el")
		k.errNil(rule, e.ctor(), "creating a valid element", err)
		for _, l := range e.loads {
			k.it.callMethod(ref, "AddLoad", k.it.newLoad(l))
		}
		k.sameBehaviour(rule, e.ctor(), elem, ref, s)
		return
	}
	k.checkAssemble(rule, e, elem, s)
	k.checkInterpolation(e, elem, s, interpRules{equil: rule, compat: rule})
}

type hingeCase struct {
	h    []int
	name string
}

func product(hs [][]int, names []string) (r []hingeCase) {
	for _, h := range hs {
		for _, n := range names {
			r = append(r, hingeCase{h, n})
		}
	}
	return r
}

func runC14(k *Check) {
	const rule = "load-acceptance"
	mk := func(it *Interp, e *elemSpec, typ, dof string, pos *Poly) load {
		switch typ {
		case "dirac":
			return load{typ: typ, kind: dof, pos: pos, v0: sym("F" + dof)}
		case "const":
			return constLoad(dof)
		}
		return linearLoad(dof)
	}
	for _, kind := range allKinds {
		hs := [][]int{nil}
		if k.thor && kind != "frame3d" {
			hs = hingeSets(kind)
		}
		for _, h := range hs {
			for _, typ := range []string{"dirac", "const", "linear"} {
				k.scenario(fmt.Sprintf("%s, hinges %v, acceptance of %s loads", kind, h, typ), func(it *Interp) {
					for _, dof := range dofNames {
						e, elem, s, ok := k.elemFor(rule, kind, h)
						if !ok {
							return
						}
						what := it.methodName(elem, "AddLoad") + " of " + kind
						l := mk(it, e, typ, dof, e.g.L.Mul(ratPoly(1, 3)))
						got := it.callMethod(elem, "AddLoad", it.newLoad(l))
						k.eq(rule, what, "acceptance of a "+l.String()+" load", got, Bool(e.accepts(typ, dof)))
						if e.accepts(typ, dof) {
							e.loads = append(e.loads, l)
						}
						k.judge("load-effect", e, elem, s)
					}
				})
			}
			k.scenario(fmt.Sprintf("%s, hinges %v, positions", kind, h), func(it *Interp) {
				a := psym("α")
				facts.positive = append(facts.positive, intPoly(1).Sub(a))
				for _, p := range []struct {
					name string
					x    *Poly
					ok   bool
				}{{"inside", a, true}, {"at the start", zeroPoly, true}, {"at the end", intPoly(1), true}, {"beyond the end", intPoly(1).Add(a), false}, {"far beyond the end", intPoly(1000000), false}} {
					for _, dof := range dofNames {
						e, elem, s, ok := k.elemFor(rule, kind, h)
						if !ok {
							return
						}
						what := it.methodName(elem, "AddLoad") + " of " + kind
						l := mk(it, e, "dirac", dof, p.x.Mul(e.g.L))
						want := p.ok && e.accepts("dirac", dof)
						k.eq(rule, what, "acceptance of a "+l.String()+" load "+p.name, it.callMethod(elem, "AddLoad", it.newLoad(l)), Bool(want))
						if want {
							e.loads = append(e.loads, l)
						}
						k.judge("load-effect", e, elem, s)
					}
				}
			})
		}
		for _, n := range []int{1, 3, 12, 40} {
			k.scenario(fmt.Sprintf("%s, acceptance after %d loads", kind, n), func(it *Interp) {
				e, elem, s, ok := k.elemFor(rule, kind, nil)
				if !ok {
					return
				}
				what := it.methodName(elem, "AddLoad") + " of " + kind
				e.loads = manyLoads(e, n)
				k.addLoads(rule, e, elem)
				a := psym("α")
				facts.positive = append(facts.positive, intPoly(1).Sub(a))
				for _, dof := range dofNames {
					for _, p := range []struct {
						typ string
						x   *Poly
						ok  bool
					}{{"dirac", intPoly(1).Add(a), false}, {"dirac", intPoly(1000), false}, {"const", nil, true}, {"linear", nil, true}, {"dirac", a, true}} {
						l := mk(it, e, p.typ, dof, e.g.L)
						if p.x != nil {
							l = mk(it, e, p.typ, dof, p.x.Mul(e.g.L))
						}
						want := p.ok && e.accepts(p.typ, dof)
						k.eq(rule, what, "acceptance of a "+l.String()+" load", it.callMethod(elem, "AddLoad", it.newLoad(l)), Bool(want))
						if want {
							e.loads = append(e.loads, l)
						}
					}
				}
				if kind != "frame3d" {
					k.checkAssemble("load-effect", e, elem, s)
				}
			})
		}
		k.scenario(kind+", foreign loads", func(it *Interp) {
			e, elem, s, ok := k.elemFor(rule, kind, nil)
			if !ok {
				return
			}
			what := it.methodName(elem, "AddLoad") + " of " + kind
			keep := linearLoad("Ux")
			it.callMethod(elem, "AddLoad", it.newLoad(keep))
			e.loads = []load{keep}
			any := func(t types.Type, v V) V { return Iface{typ: t, val: v} }
			node := it.prog.typ("Node")
			foreign := map[string]V{
				"nil":                        Iface{},
				"an integer":                 any(types.Typ[types.Int], Int(3)),
				"a string":                   any(types.Typ[types.String], Str{"qx"}),
				"a number":                   any(types.Typ[types.Float64], num(sym("q"))),
				"a degree of freedom":        any(it.prog.typ("Dof"), it.dof("Ux")),
				"a node":                     any(types.NewPointer(node), e.g.n0),
				"a nodal value":              any(it.prog.typ("NodalValue"), it.nodalValue("A", "Ux", sym("P"))),
				"a pointer to a nodal value": any(types.NewPointer(it.prog.typ("NodalValue")), it.ptrTo("nv", it.prog.typ("NodalValue"), it.nodalValue("A", "Ux", sym("P")))),
			}
			for _, n := range keysOf(foreign) {
				k.eq(rule, what, "acceptance of "+n, it.callMethod(elem, "AddLoad", foreign[n]), Bool(false))
			}
			k.judge("load-effect", e, elem, s)
			for _, n := range keysOf(foreign) {
				it.callMethod(elem, "RemoveLoad", foreign[n])
			}
			k.judge("load-removal", e, elem, s)
		})
		// removal
		for _, h := range hs {
			for _, typs := range []string{"axial", "transverse", "mixed"} {
				if typs != "axial" && strings.HasPrefix(kind, "truss") {
					continue
				}
				k.scenario(fmt.Sprintf("%s, hinges %v, removal of %s loads", kind, h, typs), func(it *Interp) {
					const rule = "load-removal"
					e, elem, s, ok := k.elemFor(rule, kind, h)
					if !ok {
						return
					}
					what := it.methodName(elem, "RemoveLoad") + " of " + kind
					var ls []load
					switch typs {
					case "axial":
						ls = []load{linearLoad("Ux"), constLoad("Ux"), it.newDirac("Ux", e.g.L)}
					case "transverse":
						ls = []load{it.newDirac("Phiy", e.g.L), linearLoad("Uz"), constLoad("Uz")}
					case "mixed":
						ls = []load{linearLoad("Ux"), it.newDirac("Uz", e.g.L), constLoad("Uz")}
					}
					bc := make([]V, len(ls))
					for i := range ls {
						bc[i] = it.newLoad(ls[i])
					}
					twin := it.newLoad(ls[0]) // same values, other object
					add := func(b V, l load) {
						k.holds(rule, what, "acceptance of "+l.String(), it.callMethod(elem, "AddLoad", b))
						e.loads = append(e.loads, l)
					}
					// removing what was never added
					it.callMethod(elem, "RemoveLoad", bc[0])
					k.judge(rule, e, elem, s)
					for _, i := range []int{0, 1, 0, 2, 0, 0} {
						add(bc[i], ls[i])
					}
					k.judge(rule, e, elem, s)
					it.callMethod(elem, "RemoveLoad", bc[0])
					e.loads = []load{ls[1], ls[2]}
					k.judge(rule, e, elem, s)
					it.callMethod(elem, "RemoveLoad", bc[0])
					k.judge(rule, e, elem, s)
					// an equal load that is another object stays
					add(twin, ls[0])
					it.callMethod(elem, "RemoveLoad", bc[0])
					k.judge(rule, e, elem, s)
					add(bc[0], ls[0])
					it.callMethod(elem, "RemoveLoad", twin)
					e.loads = []load{ls[1], ls[2], ls[0]}
					k.judge(rule, e, elem, s)
					// down to nothing, and adding again
					for i := range bc {
						it.callMethod(elem, "RemoveLoad", bc[len(bc)-1-i])
					}
					e.loads = nil
					k.judge(rule, e, elem, s)
					add(bc[2], ls[2])
					k.judge(rule, e, elem, s)
				})
			}
		}
		// loads are exchanged between uses of the element: same number, same types, same first or last load
		exchanged := map[string][]string{"axial": {"Ux"}}
		if strings.HasPrefix(kind, "frame") {
			exchanged["transverse"], exchanged["mixed"] = []string{"Uz"}, []string{"Uz", "Ux"}
		}
		for _, c := range product(hs, keysOf(exchanged)) {
			h, d := c.h, exchanged[c.name]
			k.scenario(fmt.Sprintf("%s, hinges %v, %s loads exchanged between uses", kind, h, c.name), func(it *Interp) {
				const rule = "load-removal"
				e, elem, s, ok := k.elemFor(rule, kind, h)
				if !ok {
					return
				}
				what := it.methodName(elem, "AddLoad") + " of " + kind
				var ls []load
				var bc []V
				for i := 0; i < 4; i++ {
					dof := d[i%len(d)]
					n := fmt.Sprint(i)
					l := []load{{typ: "linear", kind: dof, v0: sym("q0" + n), v1: sym("q1" + n)}, {typ: "const", kind: dof, v0: sym("q" + n)}}[i/2]
					ls, bc = append(ls, l), append(bc, it.newLoad(l))
				}
				var have []int
				for _, step := range []string{"+0", "-0+1", "+0", "-1+2", "-0-2+3", "-3", "+1+2", "-1", "+3", "-3+1", "-1-2+3+0", "-3+3"} {
					for len(step) > 0 {
						i := int(step[1] - '0')
						if step[0] == '+' {
							k.holds(rule, what, "acceptance of "+ls[i].String(), it.callMethod(elem, "AddLoad", bc[i]))
							have = append(have, i)
						} else {
							it.callMethod(elem, "RemoveLoad", bc[i])
							var rest []int
							for _, j := range have {
								if j != i {
									rest = append(rest, j)
								}
							}
							have = rest
						}
						step = step[2:]
					}
					e.loads = nil
					for _, i := range have {
						e.loads = append(e.loads, ls[i])
					}
					k.judge(rule, e, elem, s)
				}
			})
		}
		for _, n := range []int{9, 20, 40} {
			k.scenario(fmt.Sprintf("%s, %d loads", kind, n), func(it *Interp) {
				e, elem, s, ok := k.elemFor("load-acceptance", kind, nil)
				if !ok {
					return
				}
				what := it.methodName(elem, "AddLoad") + " of " + kind
				ls := manyLoads(e, n)
				var bc []V
				for _, l := range ls {
					bc = append(bc, it.newLoad(l))
				}
				add := func(i int) {
					k.holds("load-acceptance", what, "acceptance of "+ls[i].String(), it.callMethod(elem, "AddLoad", bc[i]))
				}
				for i := range ls {
					add(i)
				}
				for range ls {
					add(1)
				}
				e.loads = append(e.loads, ls...)
				for range ls {
					e.loads = append(e.loads, ls[1])
				}
				k.judge("load-effect", e, elem, s)
				it.callMethod(elem, "RemoveLoad", bc[1])
				e.loads = append(append([]load{}, ls[:1]...), ls[2:]...)
				k.judge("load-removal", e, elem, s)
				for i := range ls {
					if i != n/2 {
						it.callMethod(elem, "RemoveLoad", bc[i])
					}
				}
				e.loads = []load{ls[n/2]}
				k.judge("load-removal", e, elem, s)
			})
		}
		k.scenario(kind+", one load on two elements", func(it *Interp) {
			const rule = "load-removal"
			e, elem, s, ok := k.elemFor(rule, kind, nil)
			if !ok {
				return
			}
			other, err := it.construct(e, "el2")
			k.errNil(rule, e.ctor(), "creating a valid element", err)
			l := linearLoad("Ux")
			bc := it.newLoad(l)
			it.callMethod(elem, "AddLoad", bc)
			it.callMethod(other, "AddLoad", bc)
			it.callMethod(other, "RemoveLoad", bc)
			k.judge(rule, e, other, s)
			e.loads = []load{l}
			k.judge(rule, e, elem, s)
		})
	}
	k.scenario("negative positions", func(it *Interp) {
		for _, dof := range dofNames {
			x := sym("x")
			bc, err := it.call2("NewElementConcentratedLoad", it.dof(dof), num(x), num(sym("F")))
			c := it.ctx()
			k.eq(rule, "NewElementConcentratedLoad", "error result", c.not(isNil(c, c.restrict(err))), it.lt0(x))
			k.onSuccess(err, func() {
				k.eq(rule, "NewElementConcentratedLoad", "load is set", isNil(it.ctx(), it.ctx().restrict(bc)), Bool(false))
			})
		}
	})
}

func runC21(k *Check) {
	const rule = "element-construction"
	for _, kind := range allKinds {
		e0 := &elemSpec{kind: kind}
		call := func(it *Interp, id string, a, b Ptr) (V, V) {
			return it.call2(e0.ctor(), Str{id}, a, b, it.material(newMatParams()), it.hingeMap())
		}
		k.scenario(kind+", degenerate", func(it *Interp) {
			x, y, z := sym("x"), sym("y"), sym("z")
			for _, hinge := range []string{"", "A/Ux", "A/Phiy"} {
				h := it.hingeMap()
				if hinge != "" {
					h = it.hingeMap(hinge)
				}
				for _, id := range []string{"el", ""} {
					a, b := it.node("A", x, y, z), it.node("B", x, y, z)
					same := it.node("A", x, y, z)
					o := it.node("O", zeroPoly, zeroPoly, zeroPoly)
					o2 := it.node("P", zeroPoly, zeroPoly, zeroPoly)
					for i, p := range [][2]Ptr{{a, b}, {a, same}, {a, a}, {b, a}, {o, o2}} {
						_, err := it.call2(e0.ctor(), Str{id}, p[0], p[1], it.material(newMatParams()), h)
						k.errSet(rule, e0.ctor(), fmt.Sprintf("coincident nodes (%d), identifier %q, hinge %q", i, id, hinge), err)
					}
				}
				g := it.geom(kind, "A", "B")
				_, err := it.call2(e0.ctor(), Str{""}, g.n0, g.n1, it.material(newMatParams()), h)
				k.errSet(rule, e0.ctor(), "empty identifier, hinge "+hinge, err)
			}
		})
		k.scenario(kind+", arbitrary identifier", func(it *Interp) {
			g := it.geom(kind, "A", "B")
			id := &SymStr{name: "id"}
			el, err := it.call2(e0.ctor(), id, g.n0, g.n1, it.material(newMatParams()), it.hingeMap())
			c := it.ctx()
			k.eq(rule, e0.ctor(), "error result", c.not(isNil(c, c.restrict(err))), it.strEq(c, id, Str{""}))
			k.onSuccess(err, func() {
				k.eq(rule, it.methodName(el, "ID"), "identifier", it.callMethod(el, "ID"), id)
			})
		})
		k.scenario(kind+", small and large distances", func(it *Interp) {
			L, tiny := psym("L"), atomPoly(epsAtom)
			dirs := [][3]int64{{1, 0, 0}, {-1, 0, 0}, {0, 0, 1}, {0, 0, -1}, {1, 0, 1}, {-3, 0, 4}}
			if kind == "truss3d" {
				dirs = append(dirs, [3]int64{0, 1, 0}, [3]int64{0, -1, 0}, [3]int64{2, -1, 2})
			}
			for _, d := range dirs {
				for _, l := range []*Poly{L, ratPoly(1, 1000000), ratPoly(1, 100000000000), intPoly(1000000), tiny.Mul(ratPoly(1, 1000)), tiny.Mul(tiny)} {
					x, y, z := sym("x"), sym("y"), sym("z")
					a := it.node("A", x, y, z)
					b := it.node("B", x.Add(l.Scale(ratInt(int(d[0])))), y.Add(l.Scale(ratInt(int(d[1])))), z.Add(l.Scale(ratInt(int(d[2])))))
					el, err := call(it, "el", a, b)
					if k.errNil(rule, e0.ctor(), fmt.Sprintf("distance %v in direction %v", l, d), err) {
						k.eq(rule, it.methodName(el, "ID"), "identifier", it.callMethod(el, "ID"), Str{"el"})
					}
				}
			}
		})
		hs := [][]int{nil}
		if kind != "frame3d" {
			hs = hingeSets(kind)
		}
		for _, h := range hs {
			if !k.thor && len(h) > 1 {
				continue
			}
			k.scenario(fmt.Sprintf("%s, hinges %v, reported properties", kind, h), func(it *Interp) {
				for vi, ids := range [][2]string{{"A", "B"}, {"B", "A"}, {"n1", "n10"}} {
					e := &elemSpec{kind: kind, hinges: h, g: it.geom(kind, ids[0], ids[1]), m: newMatParams()}
					id := []string{"el", "AB", "x y"}[vi]
					elem, err := it.construct(e, id)
					if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
						return
					}
					k.eq(rule, it.methodName(elem, "ID"), "identifier", it.callMethod(elem, "ID"), Str{id})
					k.eq(rule, it.methodName(elem, "NumNodes"), "number of nodes", it.callMethod(elem, "NumNodes"), Int(2))
					keys := it.indexKeys(elem)
					what := it.methodName(elem, "Indices") + " of " + kind
					if kind != "frame3d" {
						k.expect(rule, what, fmt.Sprint(keys) == fmt.Sprint(sorted(e.globalKeys())), "reported degrees of freedom are %v, must be %v", keys, sorted(e.globalKeys()))
					}
					// the given set is extended, nothing is removed
					m := it.newMap(it.idx("Z", "Phix"), Struct{}, it.idx(ids[0], "Ux"), Struct{})
					it.callMethod(elem, "Indices", m)
					n := 0
					for range it.content(m.o).(*MapVal).ents {
						n++
					}
					want := len(keys) + 1
					k.expect(rule, what, n == want, "a set with another degree of freedom has %d entries afterwards, must have %d", n, want)
					_, has := it.split(it.callMapLookup(m, it.idx("Z", "Phix")))
					k.holds(rule, what, "presence of the previous entry", has)
					if kind != "frame3d" {
						s := k.systemFor(elem, variants[0])
						for _, d := range []string{"Phiy", "Phix", "Uy"} {
							_ = d
						}
						k.checkAssemble(rule, e, elem, s)
					}
					// sufficient to solve a problem that consists of it
					var bcs []V
					node, d := splitKey(keys[0])
					bcs = append(bcs, it.nodalValue(node, d, sym("u")))
					p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
						"Elements": it.mkSlice("Element", elem), "Dirichlet": it.mkSlice("NodalValue", bcs...),
					}))
					lay, err := it.call2("NewEqLayout", p)
					k.errNil(rule, what, "numbering a problem with this element", err)
					k.onSuccess(err, func() {
						solver := it.call1("NewLinearProblemSolver")
						res, err := it.split(it.callMethod(solver, "Solve", p, lay, it.stubSolver(nil)))
						k.errNil(rule, what, "solving a problem with this element", err)
						k.onSuccess(err, func() {
							dim := it.callMethod(res, "Dimension")
							k.eq(rule, what, "number of unknowns", it.part(dim, 0), Int(len(keys)))
							for _, f := range fctNames {
								_, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct(f), num(intPoly(-1))))
								k.errNil(rule, what, "interpolation of "+f, err)
							}
						})
					})
				}
			})
		}
	}
}

// callMapLookup is m[k] with the comma-ok form.
func (it *Interp) callMapLookup(m MapRef, key V) V {
	v := it.content(m.o).(*MapVal)
	c := it.ctx()
	has := V(Bool(false))
	for _, e := range v.ents {
		has = c.or(has, c.and(leafBool(it, e.k, key), e.has))
	}
	return Tuple{[]V{nil, has}}
}

func leafBool(it *Interp, a, b V) V { return Bool(leafEqV(it.ctx(), a, b)) }

func init() {
	register(&propSpec{id: "C14", min: 500, assume: []string{exact, "load values of different types are no element loads"},
		rule: "abstract interpretation of load constructors, AddLoad and RemoveLoad for every element type, load type, degree of freedom and position class (inside, at both ends, beyond the end) with symbolic values: the boolean result must match the documented acceptance, and after every step the assembled matrices and interpolations must be exactly those of an element with the remaining loads",
		run:  runC14})
	register(&propSpec{id: "C21", min: 200, assume: []string{exact, "truss2d/frame2d/frame3d elements lie in a plane of constant y"},
		rule: "abstract interpretation of the four element constructors: coincident nodes (arbitrary coordinates) and empty identifiers give an error, everything else succeeds; ID, NumNodes and Indices are compared with the specification, the entries written by Assemble with the reported degrees of freedom, and a problem that consists of the element is numbered, solved and interpolated without error",
		run:  runC21})
}
