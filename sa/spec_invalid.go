package main

// Invalid documents.

import (
	"fmt"
	"strings"
)

// pipelineErr demands that parsing, numbering or solving the document ends in an error whenever bad holds.
func (k *Check) mustReject(rule, what string, doc *JNode, bad V) {
	it := k.it
	k.assuming(bad, func() {
		construct := parseFn + ": " + what
		p, err := k.parse(doc)
		k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(l V) {
			if !bool(l.(Bool)) {
				k.pass(rule, construct)
				return
			}
			pp := it.ptrTo("problem", it.prog.typ("Problem"), it.ctx().restrict(p))
			lay, err := it.call2("NewEqLayout", pp)
			k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(l V) {
				if !bool(l.(Bool)) {
					k.pass(rule, construct)
					return
				}
				_, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", pp, lay, it.stubSolver(nil)))
				k.eq(rule, construct, "parsing, numbering or solving "+doc.String()+" reports an error", it.not(isNil(it.ctx(), it.ctx().restrict(err))), Bool(true))
			})
		})
	})
}

func (k *Check) mustPass(rule string, doc *JNode) {
	it := k.it
	p, ok := k.mustParse(rule, doc)
	if !ok {
		return
	}
	pp := it.ptrTo("problem", it.prog.typ("Problem"), p)
	lay, err := it.call2("NewEqLayout", pp)
	if k.errNil(rule, "NewEqLayout", "numbering a valid document", err) {
		_, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", pp, lay, it.stubSolver(nil)))
		k.errNil(rule, "Solve", "solving a valid document", err)
	}
}

// fullDoc uses every part of the format with several entries each.
func (k *Check) fullDoc() *JNode {
	it := k.it
	doc, t, es := k.modelDoc()
	mat2 := newMat("2")
	doc.at("material").obj = append([]JEnt{{Str{"m2"}, materialDoc(mat2)}}, doc.at("material").obj...)
	doc.at("crosssection").obj = append([]JEnt{{Str{"r"}, rect{psym("b"), psym("w"), psym("roll")}.doc()}}, doc.at("crosssection").obj...)
	doc.at("crosssection").set("c2", constantsDoc(newConstants("2", true)))
	// some that no element refers to
	doc.at("material").set("m3", materialDoc(newMat("3")))
	doc.at("crosssection").obj = append([]JEnt{{Str{"r3"}, rect{psym("b3"), psym("w3"), psym("roll3")}.doc()}}, doc.at("crosssection").obj...)
	doc.at("crosssection").set("c3", constantsDoc(newConstants("3", true)))
	for i, id := range []string{"BC", "AB", "AC"} {
		e := doc.at("elements", id)
		e.set("material", jstr([]string{"m", "m2", "m"}[i]))
		e.set("cs", jstr([]string{"r", "c", "c2"}[i]))
	}
	doc.at("elements", "AB").set("hinges", jobj("A", jarr(jstr("Ux")), "B", jarr(jstr("Phiy"))))
	doc.at("elements").set("second", jobj("kind", jstr("truss3d"), "nodes", jarr(jstr("B"), jstr("C")), "cs", jstr("c"), "material", jstr("m2")))
	doc.set("dirichlet", jobj(
		"A", jarr(jobj("Ux", jint(0), "Uz", jnum(sym("d1"))), jobj("Phiy", jint(0))),
		"B", jarr(jobj("Uz", jint(0)))))
	doc.set("links", jobj(
		"C", jarr(jobj("from", jstr("Ux"), "to", jstr("Uz"), "angle", jnum(sym("a1")))),
		"B", jarr(jobj("from", jstr("Ux"), "to", jstr("Uy"), "angle", jnum(sym("a2"))))))
	L := es["AB"].g.L
	_ = t
	doc.set("neumann", jobj(
		"B", jarr(jobj("Fx", jnum(sym("f1"))), jobj("My", jnum(sym("f2")), "Fz", jnum(sym("f3")))),
		"AB", jarr(loadDoc("qz", linearLoad("Uz"), L), loadDoc("Fz", it.newDirac("Uz", L), L), loadDoc("qx", constLoad("Ux"), L)),
		"AC", jarr(loadDoc("qx", constLoad("Ux"), nil)),
		"C", jarr(jobj("Fx", jnum(sym("f4"))))))
	return doc
}

type defect struct {
	name string
	mut  func(it *Interp, d *JNode) (bad V)
}

// unknown is a string that equals none of the given ones.
func unknown(it *Interp, known ...string) (*SymStr, V) {
	s := &SymStr{name: "s"}
	var any []V
	for _, t := range known {
		any = append(any, it.strEq(it.ctx(), s, Str{t}))
	}
	return s, it.not(it.any(any...))
}

func names(ms ...map[string]string) []string {
	var r []string
	for _, m := range ms {
		r = append(r, keysOf(m)...)
	}
	return r
}

func rename(o *JNode, from string, to V) {
	for i, e := range o.obj {
		if s, ok := e.key.(Str); ok && s.s == from {
			o.obj[i].key = to
			return
		}
	}
	panic("no key " + from)
}

var yes = Bool(true)

func defects() []defect {
	var r []defect
	add := func(name string, mut func(it *Interp, d *JNode) V) { r = append(r, defect{name, mut}) }
	simple := func(name string, mut func(d *JNode)) {
		add(name, func(it *Interp, d *JNode) V { mut(d); return yes })
	}
	// sections
	for _, s := range []string{"nodes", "material", "crosssection", "elements"} {
		simple("no "+s, func(d *JNode) { d.del(s) })
		simple("null "+s, func(d *JNode) { d.set(s, jnull()) })
		simple("empty "+s, func(d *JNode) { d.set(s, jobj()) })
	}
	simple("no supports", func(d *JNode) { d.del("dirichlet"); d.del("links") })
	simple("empty supports", func(d *JNode) { d.set("dirichlet", jobj()); d.set("links", jobj()) })
	simple("supports without entries", func(d *JNode) {
		d.set("dirichlet", jobj("A", jarr(), "B", jarr(jobj())))
		d.set("links", jobj("C", jarr()))
	})
	// elements
	for _, id := range []string{"AB", "BC", "second"} {
		at := func(d *JNode) *JNode { return d.at("elements", id) }
		add("unknown kind of element "+id, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "truss2d", "truss3d", "frame2d")
			at(d).set("kind", jsym(s))
			return bad
		})
		simple("element "+id+" without kind", func(d *JNode) { at(d).del("kind") })
		add("unknown material of element "+id, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "m", "m2", "m3")
			at(d).set("material", jsym(s))
			return bad
		})
		add("unknown cross section of element "+id, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "r", "c", "c2", "r3", "c3")
			at(d).set("cs", jsym(s))
			return bad
		})
		simple("ambiguous material of element "+id, func(d *JNode) { at(d).del("material") })
		simple("ambiguous cross section of element "+id, func(d *JNode) { at(d).del("cs") })
		for i := 0; i < 2; i++ {
			add(fmt.Sprintf("unknown node %d of element %v", i, id), func(it *Interp, d *JNode) V {
				s, bad := unknown(it, "A", "B", "C")
				l := []*JNode{jstr("A"), jstr("B")}
				l[i] = jsym(s)
				at(d).set("nodes", jarr(l...))
				if id == "AB" {
					at(d).del("hinges")
				}
				return bad
			})
		}
		for _, l := range [][]*JNode{{jstr("A")}, {jstr("A"), jstr("B"), jstr("C")}, {jstr("A"), jstr("A")}, {jstr("B"), jstr("A"), jstr("B"), jstr("A")},
			{jstr("A"), jstr("B"), jstr("A")}, {jstr("A"), jstr("B"), jstr("B")}, {jstr("A"), jstr("A"), jstr("B")}, {jstr("A"), jstr("B"), jstr("")}, {jstr(""), jstr("A"), jstr("B")},
			{jstr("A"), jstr("B"), jstr("A"), jstr("B")}, {jstr("A"), jstr("")}, {jstr(""), jstr("A")}, {jstr("A"), jstr("a")}, {jstr("A"), jstr("A ")}, {jstr("A,B")}, {jstr("AB")},
			{jstr("A"), jstr("B"), jstr("nowhere")}, {jstr("A"), jstr("B"), jstr("A"), jstr("B"), jstr("A")}} {
			simple(fmt.Sprintf("element %v with nodes %v", id, l), func(d *JNode) { at(d).set("nodes", jarr(l...)) })
		}
		for _, nid := range []string{"AX", "XB", "A", "ABC", "AA", "", "ab"} {
			simple(fmt.Sprintf("element %v renamed to %q", id, nid), func(d *JNode) {
				e := at(d)
				for i := range e.obj {
					if e.obj[i].key.(Str).s == "nodes" {
						e.del("nodes")
						break
					}
				}
				d.at("elements").del(id)
				if id == "AB" {
					d.at("neumann").del("AB")
				}
				d.at("elements").set(nid, e)
			})
		}
		simple("element "+id+" without name", func(d *JNode) {
			e := at(d).set("nodes", jarr(jstr("A"), jstr("B")))
			d.at("elements").del(id)
			if id == "AB" {
				d.at("neumann").del("AB")
			}
			d.at("elements").set("", e)
		})
		add("hinge of element "+id+" at another node", func(it *Interp, d *JNode) V {
			n0, n1 := string(id[0]), string(id[1])
			if id == "second" {
				n0, n1 = "B", "C"
			}
			s, bad := unknown(it, n0, n1)
			at(d).set("hinges", jobj(n0, jarr(jstr("Ux")), s, jarr(jstr("Ux"))))
			return bad
		})
		for hi, foreign := range []*JNode{jarr(jstr("Ux")), jarr(), jarr(jstr("Phiy"), jstr("Uz"))} {
			for mask := 0; mask < 4; mask++ {
				add(fmt.Sprintf("hinge %d at another node of element %v beside %d", hi, id, mask), func(it *Interp, d *JNode) V {
					n0, n1, n2 := string(id[0]), string(id[1]), string('A'+'B'+'C'-rune(id[0])-rune(id[1]))
					if id == "second" {
						n0, n1, n2 = "B", "C", "A"
					}
					h := jobj()
					if mask&1 != 0 {
						h.set(n0, jarr())
					}
					h.set(n2, foreign)
					if mask&2 != 0 {
						h.set(n1, jarr(jstr("Ux")))
					}
					at(d).set("hinges", h)
					return yes
				})
			}
		}
		for i := 0; i < 2; i++ {
			add(fmt.Sprintf("unknown hinge name %d of element %v", i, id), func(it *Interp, d *JNode) V {
				n0 := string(id[0])
				if id == "second" {
					n0 = "B"
				}
				s, bad := unknown(it, names(dispNames)...)
				l := []*JNode{jstr("Ux"), jstr("Ux")}
				l[i] = jsym(s)
				at(d).set("hinges", jobj(n0, jarr(l...)))
				return bad
			})
		}
	}
	simple("axial hinges at both ends of a truss", func(d *JNode) {
		d.at("elements", "AC").set("hinges", jobj("A", jarr(jstr("Ux")), "C", jarr(jstr("Ux"))))
	})
	simple("axial hinges at both ends of a frame", func(d *JNode) {
		d.at("elements", "BC").set("hinges", jobj("B", jarr(jstr("Ux")), "C", jarr(jstr("Ux"))))
	})
	simple("three transverse hinges of a frame", func(d *JNode) {
		d.at("elements", "BC").set("hinges", jobj("B", jarr(jstr("Uz"), jstr("Phiy")), "C", jarr(jstr("Phiy"))))
	})
	simple("shear hinges at both ends of a frame", func(d *JNode) {
		d.at("elements", "BC").set("hinges", jobj("B", jarr(jstr("Uz")), "C", jarr(jstr("Uz"))))
	})
	// nodes
	for _, id := range []string{"A", "B", "C"} {
		for n := 0; n < 6; n++ {
			if n != 3 {
				simple(fmt.Sprintf("node %v with %d coordinates", id, n), func(d *JNode) {
					c := jarr()
					for i := 0; i < n; i++ {
						c.arr = append(c.arr, jint(i+1))
					}
					d.at("nodes").set(id, c)
				})
			}
		}
	}
	for _, id := range []string{"A", "C"} {
		for n := 4; n < 8; n++ {
			for _, fill := range []int{0, 1} { // what is added vanishes or repeats a coordinate
				simple(fmt.Sprintf("node %v with %d coordinates, %d", id, n, fill), func(d *JNode) {
					c := d.at("nodes", id)
					for len(c.arr) < n {
						if fill == 0 {
							c.arr = append(c.arr, jint(0))
						} else {
							c.arr = append(c.arr, c.arr[len(c.arr)-1].clone())
						}
					}
				})
			}
		}
		for n := 1; n < 3; n++ {
			simple(fmt.Sprintf("node %v with its first %d coordinates", id, n), func(d *JNode) { d.at("nodes", id).arr = d.at("nodes", id).arr[:n] })
		}
	}
	simple("coincident nodes", func(d *JNode) { d.at("nodes").set("B", d.at("nodes", "A").clone()) })
	simple("coincident nodes", func(d *JNode) { d.at("nodes").set("C", d.at("nodes", "B").clone()) })
	// materials and cross sections
	for _, m := range []string{"m", "m2", "m3"} {
		for _, p := range []string{"E", "nu", "rho"} {
			simple("material "+m+" without "+p, func(d *JNode) { d.at("material", m, "parameter").del(p) })
			add("unknown parameter instead of "+p+" of material "+m, func(it *Interp, d *JNode) V {
				s, bad := unknown(it, "E", "nu", "rho")
				rename(d.at("material", m, "parameter"), p, s)
				return bad
			})
		}
		simple("material "+m+" without parameters", func(d *JNode) { d.at("material", m).del("parameter") })
		simple("material "+m+" with null parameters", func(d *JNode) { d.at("material", m).set("parameter", jnull()) })
	}
	params := map[string][]string{"r": {"b", "h", "roll"}, "c": {"A", "Iyy", "Izz"}, "c2": {"A", "Iyy", "Izz", "Ixx", "roll"},
		"r3": {"b", "h", "roll"}, "c3": {"A", "Iyy", "Izz", "Ixx", "roll"}}
	for _, cs := range keysOf(params) {
		ps := params[cs]
		for _, p := range ps {
			if p != "roll" && p != "Ixx" {
				simple("cross section "+cs+" without "+p, func(d *JNode) { d.at("crosssection", cs, "parameter").del(p) })
				add("unknown parameter instead of "+p+" of cross section "+cs, func(it *Interp, d *JNode) V {
					s, bad := unknown(it, append([]string{"roll", "Ixx"}, ps...)...)
					rename(d.at("crosssection", cs, "parameter"), p, s)
					return bad
				})
			}
			add("inadmissible "+p+" of cross section "+cs, func(it *Interp, d *JNode) V {
				v := sym("v")
				d.at("crosssection", cs, "parameter").set(p, jnum(v))
				if p == "roll" || p == "Ixx" {
					return it.lt0(v)
				}
				return it.le0(v)
			})
		}
		simple("cross section "+cs+" without parameters", func(d *JNode) { d.at("crosssection", cs).del("parameter") })
		simple("cross section "+cs+" without kind", func(d *JNode) { d.at("crosssection", cs).del("kind") })
		add("unknown kind of cross section "+cs, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "rectangle", "constants")
			d.at("crosssection", cs).set("kind", jsym(s))
			return bad
		})
	}
	// supports
	for _, at := range []struct {
		node string
		i    int
		dof  string
	}{{"A", 0, "Ux"}, {"A", 0, "Uz"}, {"A", 1, "Phiy"}, {"B", 0, "Uz"}} {
		add(fmt.Sprintf("unknown displacement %v/%d instead of %v", at.node, at.i, at.dof), func(it *Interp, d *JNode) V {
			s, bad := unknown(it, names(dispNames)...)
			rename(d.at("dirichlet", at.node, at.i), at.dof, s)
			return bad
		})
		for _, n := range []string{"Fx", "My", "ux", "UX", "phiy", "qx", ""} {
			simple(fmt.Sprintf("displacement %q at %v/%d instead of %v", n, at.node, at.i, at.dof), func(d *JNode) {
				rename(d.at("dirichlet", at.node, at.i), at.dof, Str{n})
			})
		}
	}
	for _, n := range []string{"A", "B"} {
		add("supports at an unknown node instead of "+n, func(it *Interp, d *JNode) V {
			rename(d.at("dirichlet"), n, Str{"nowhere"})
			return yes
		})
	}
	simple("displacement prescribed twice", func(d *JNode) {
		l := d.at("dirichlet", "A")
		l.arr = append(l.arr, jobj("Ux", jint(0)))
	})
	simple("displacement prescribed twice with different values", func(d *JNode) {
		l := d.at("dirichlet", "B")
		l.arr = append(l.arr, jobj("Uz", jint(3)))
	})
	simple("prescribed displacement that no element uses", func(d *JNode) {
		l := d.at("dirichlet", "A")
		l.arr = append(l.arr, jobj("Phix", jint(0)))
	})
	simple("prescribed and linked", func(d *JNode) {
		l := d.at("dirichlet", "B")
		l.arr = append(l.arr, jobj("Uy", jint(0)))
	})
	// links
	for _, at := range []string{"B", "C"} {
		other := map[string][2]string{"B": {"Uy", "Ux"}, "C": {"Uz", "Ux"}}[at]
		for i, f := range []string{"from", "to"} {
			add(fmt.Sprintf("unknown %q at %v", f, at), func(it *Interp, d *JNode) V {
				s, bad := unknown(it, "Ux", "Uy", "Uz")
				d.at("links", at, 0).set(f, jsym(s))
				return bad
			})
			simple(fmt.Sprintf("link %v without %q", at, f), func(d *JNode) { d.at("links", at, 0).del(f) })
			simple(fmt.Sprintf("link %v with itself (%v)", at, f), func(d *JNode) { d.at("links", at, 0).set(f, jstr(other[i])) })
			for _, n := range []string{"Phiy", "Fx", "ux"} {
				simple(fmt.Sprintf("link %v %v %v", at, f, n), func(d *JNode) { d.at("links", at, 0).set(f, jstr(n)) })
			}
		}
		simple("link at an unknown node instead of "+at, func(d *JNode) { rename(d.at("links"), at, Str{"nowhere"}) })
		simple("link "+at+" twice", func(d *JNode) {
			l := d.at("links", at)
			l.arr = append(l.arr, l.arr[0].clone())
		})
	}
	// nodal loads
	for _, at := range []struct {
		node string
		i    int
		dof  string
	}{{"B", 0, "Fx"}, {"B", 1, "My"}, {"B", 1, "Fz"}, {"C", 0, "Fx"}} {
		for _, n := range []string{"Ux", "qz", "fx", "Phiy", "my", "", "x"} {
			simple(fmt.Sprintf("nodal load %q at %v/%d instead of %v", n, at.node, at.i, at.dof), func(d *JNode) {
				rename(d.at("neumann", at.node, at.i), at.dof, Str{n})
			})
		}
		add(fmt.Sprintf("unknown nodal load at %v/%d instead of %v", at.node, at.i, at.dof), func(it *Interp, d *JNode) V {
			s, bad := unknown(it, append(names(forceNames), "kind", "degree", "values", "position")...)
			rename(d.at("neumann", at.node, at.i), at.dof, s)
			return bad
		})
	}
	simple("nodal loads at an unknown node", func(d *JNode) { rename(d.at("neumann"), "B", Str{"nowhere"}) })
	simple("nodal loads at an unknown node", func(d *JNode) { rename(d.at("neumann"), "C", Str{"nowhere"}) })
	simple("nodal load that no element resists", func(d *JNode) {
		d.at("neumann", "C", 0).set("Mx", jint(1))
	})
	// element loads
	for _, el := range []string{"AB", "AC"} {
		add("element loads on an unknown element instead of "+el, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "AB", "BC", "AC", "second", "B", "C")
			rename(d.at("neumann"), el, s)
			return bad
		})
	}
	for _, at := range []struct {
		el string
		i  int
	}{{"AB", 0}, {"AB", 1}, {"AB", 2}, {"AC", 0}} {
		l := func(d *JNode) *JNode { return d.at("neumann", at.el, at.i) }
		nm := fmt.Sprintf("load %d on %v", at.i, at.el)
		add("unknown direction of "+nm, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, names(forceNames, distNames)...)
			l(d).set("kind", jsym(s))
			return bad
		})
		add("unknown type of "+nm, func(it *Interp, d *JNode) V {
			s, bad := unknown(it, "dirac", "constant", "linear")
			l(d).set("degree", jsym(s))
			return bad
		})
		for _, f := range []string{"kind", "degree", "values"} {
			simple(nm+" without "+f, func(d *JNode) { l(d).del(f) })
		}
		for nv := 0; nv < 5; nv++ {
			for np := 0; np < 3; np++ {
				counts := map[string][2]int{"dirac": {1, 1}, "constant": {1, 0}, "linear": {2, 0}}
				for _, deg := range keysOf(counts) {
					want := counts[deg]
					if want == [2]int{nv, np} {
						continue
					}
					simple(fmt.Sprintf("%v: %v with %d values and %d positions", nm, deg, nv, np), func(d *JNode) {
						v, p := jarr(), jarr()
						for i := 0; i < nv; i++ {
							v.arr = append(v.arr, jint(i))
						}
						for i := 0; i < np; i++ {
							p.arr = append(p.arr, jint(0))
						}
						n := l(d).set("degree", jstr(deg)).set("values", v)
						if np > 0 {
							n.set("position", p)
						} else if at.i == 1 {
							n.del("position")
						}
					})
				}
			}
		}
		for _, names := range []map[string]string{forceNames, distNames} {
			for _, n := range keysOf(names) {
				for _, typ := range []string{"dirac", "const", "linear"} {
					e := &elemSpec{kind: map[string]string{"AB": "frame2d", "AC": "truss2d"}[at.el]}
					if e.accepts(typ, names[n]) {
						continue
					}
					simple(fmt.Sprintf("%v replaced by unsupported %v %v", nm, typ, n), func(d *JNode) {
						ld := load{typ: typ, v0: sym("v0"), v1: sym("v1"), pos: zeroPoly}
						d.at("neumann", at.el).arr[at.i] = loadDoc(n, ld, nil)
					})
				}
			}
		}
		for _, n := range []string{"Fx", "Fz", "My"} {
			if at.el == "AC" && n != "Fx" {
				continue
			}
			add(fmt.Sprintf("%v replaced by %v at a negative position", nm, n), func(it *Interp, d *JNode) V {
				x := sym("p")
				d.at("neumann", at.el).arr[at.i] = loadDoc(n, load{typ: "dirac", v0: sym("v0"), pos: x}, nil)
				return it.lt0(x)
			})
			add(fmt.Sprintf("%v replaced by %v beyond the end", nm, n), func(it *Interp, d *JNode) V {
				h := toPoly(d.at("nodes", "C", 0).v).Sub(toPoly(d.at("nodes", "A", 0).v)).Mul(ratPoly(1, 4))
				L := h.Mul(intPoly(map[string]int64{"AB": 4, "AC": 5}[at.el]))
				d.at("neumann", at.el).arr[at.i] = loadDoc(n, load{typ: "dirac", v0: sym("v0"), pos: L.Add(psym("e"))}, nil)
				return yes
			})
		}
	}
	return r
}

func runC12(k *Check) {
	bothOrders(k, "the document without defects", func(it *Interp) { k.mustPass("valid", k.fullDoc()) })
	for _, d := range defects() {
		bothOrders(k, d.name, func(it *Interp) {
			doc := k.fullDoc()
			bad := d.mut(it, doc)
			k.mustReject("rejected", d.name, doc, bad)
		})
	}
	// the same with vanishing loads, displacements and angles
	ds := defects()
	for _, d := range ds {
		k.scenario(d.name+", all values zero", func(it *Interp) {
			doc := k.fullDoc()
			bad := d.mut(it, doc)
			for _, e := range doc.obj {
				if s, ok := e.key.(Str); ok && (s.s == "dirichlet" || s.s == "neumann" || s.s == "links") {
					neutral(e.val)
				}
			}
			k.mustReject("rejected", d.name+", all values zero", doc, bad)
		})
	}
	// two defects don't make up for each other
	pairs := 500
	if k.thor {
		pairs = 10000
	}
	state := uint64(4711)
	random := func(n int) int {
		state = state*6364136223846793005 + 1442695040888963407
		return int((state >> 33) % uint64(n))
	}
	both := func(a, b int) {
		k.scenario(ds[a].name+" and "+ds[b].name, func(it *Interp) {
			doc := k.fullDoc()
			bad := ds[a].mut(it, doc)
			var also V
			func() {
				defer func() { _ = recover() }() // not possible together
				also = ds[b].mut(it, doc)
			}()
			if also != nil {
				k.mustReject("rejected", ds[a].name+" and "+ds[b].name, doc, it.not(it.any(it.not(bad), it.not(also))))
			}
		})
	}
	for i := 0; i < pairs; i++ {
		a := random(len(ds))
		b := random(len(ds))
		if i%2 == 0 { // in the same part of the document
			b = (a + 1 + random(60)) % len(ds)
		}
		both(a, b)
	}
	// whatever else is wrong with it, a part doesn't vanish together with what it refers to
	for b, d := range ds {
		for _, el := range []string{"AB", "AC"} {
			if d.name == "element loads on an unknown element instead of "+el {
				for a, o := range ds {
					if strings.HasPrefix(o.name, "load ") && strings.Contains(o.name, " on "+el) || strings.HasSuffix(o.name, " on "+el) {
						both(a, b)
					}
				}
			}
		}
	}
	k.similarNames()
	// values of a wrong type
	bothOrders(k, "wrong types", func(it *Interp) {
		base := k.fullDoc()
		paths(base, nil, func(path []any, n *JNode) {
			for _, w := range []*JNode{jbool(true), jbool(false), jint(7), jstr("text"), jarr(), jobj(), jarr(jint(1)), jobj("Ux", jint(1))} {
				if w.kind == n.kind {
					continue
				}
				doc := base.clone()
				replace(doc, path, w)
				k.mustReject("wrong-type", fmt.Sprintf("%v instead of %v at %v", w, n.kind, generic(path)), doc, yes)
			}
		})
	})
	k.scenario("malformed text", func(it *Interp) {
		k.mustReject("wrong-type", "malformed text", &JNode{kind: "bad"}, yes)
		for _, d := range []*JNode{jnull(), jobj(), jarr(), jarr(k.fullDoc()), jstr("x"), jint(1), jbool(true)} {
			k.mustReject("wrong-type", "a document that is "+d.kind, d, yes)
		}
		_, err := it.call2("ProblemFromJSON", Slice{})
		k.errSet("wrong-type", parseFn, "parsing nothing", err)
	})
}

// neutral sets all numbers that aren't positions to zero.
func neutral(n *JNode) {
	for _, e := range n.obj {
		if s, ok := e.key.(Str); ok && s.s == "position" {
			continue
		}
		if e.val.kind == "num" {
			e.val.v = num(zeroPoly)
		}
		neutral(e.val)
	}
	for _, e := range n.arr {
		if e.kind == "num" {
			e.v = num(zeroPoly)
		}
		neutral(e)
	}
}

// paths visits every value of a document below the top level.
func paths(n *JNode, path []any, f func(path []any, n *JNode)) {
	if len(path) > 0 {
		f(path, n)
	}
	for _, e := range n.obj {
		if s, ok := e.key.(Str); ok {
			paths(e.val, append(append([]any(nil), path...), s.s), f)
		}
	}
	for i, e := range n.arr {
		paths(e, append(append([]any(nil), path...), i), f)
	}
}

func replace(n *JNode, path []any, w *JNode) {
	p := n.at(path[:len(path)-1]...)
	switch x := path[len(path)-1].(type) {
	case string:
		p.set(x, w)
	case int:
		p.arr[x] = w
	}
}

func remove(n *JNode, path []any) {
	p := n.at(path[:len(path)-1]...)
	switch x := path[len(path)-1].(type) {
	case string:
		p.del(x)
	case int:
		p.arr = append(append([]*JNode(nil), p.arr[:x]...), p.arr[x+1:]...)
	}
}

func generic(path []any) string {
	s := ""
	for _, p := range path {
		s += fmt.Sprint("/", p)
	}
	return s
}

func init() {
	register(&propSpec{
		id: "C12", min: 1000,
		rule:   "abstract interpretation of ProblemFromJSON (and, where the document is parsed, of numbering and solving) on a document with exactly one defect from a catalogue that covers every part of the format, in every entry and with maps iterated in either order; unknown names, values and positions are symbolic, so an error is demanded for all of them at once",
		assume: []string{exact, "encoding/json decodes according to its documentation (modelled on abstract documents)"},
		run:    runC12,
	})
}

// similarNames: references that resemble an existing name refer to nothing.
func (k *Check) similarNames() {
	const node, far, mat, cs, frame, truss = "Left node 1", "far", "Steel 235", "HEA 200", "Beam-1", "Strut"
	build := func() *JNode {
		t := newTriangle(node, far, "top")
		m, c := newMat(""), newConstants("", false)
		e := elementDoc(&elemSpec{kind: "frame2d", g: t.geom(0, 1), m: m.with(c)}, true, mat, cs)
		e2 := elementDoc(&elemSpec{kind: "truss2d", g: t.geom(1, 2), m: m.with(c)}, true, mat, cs)
		md := jobj(mat, materialDoc(m), "Wood", materialDoc(newMat("2")))
		cd := jobj(cs, constantsDoc(c), "Round", constantsDoc(newConstants("2", false)))
		e.set("hinges", jobj(node, jarr(jstr("Phiy"))))
		return jobj("nodes", t.doc(), "material", md, "crosssection", cd, "elements", jobj(frame, e, truss, e2),
			"dirichlet", jobj(node, jarr(jobj("Ux", jint(0))), "top", jarr(jobj("Uz", jint(0)))),
			"links", jobj(far, jarr(jobj("from", jstr("Ux"), "to", jstr("Uz"), "angle", jnum(sym("a"))))),
			"neumann", jobj(node, jarr(jobj("Fx", jnum(sym("f")))), frame, jarr(loadDoc("qz", linearLoad("Uz"), nil)), truss, jarr(loadDoc("qx", constLoad("Ux"), nil))))
	}
	bothOrders(k, "the document with long names", func(it *Interp) { k.mustPass("valid", build()) })
	similar := func(s string) []string {
		flip := func(s string) string {
			if u := strings.ToUpper(s); u != s {
				return u
			}
			return strings.ToLower(s)
		}
		r := []string{strings.ToLower(s), strings.ToUpper(s), flip(s[:1]) + s[1:], s[:len(s)-1], s[1:], s + " ", " " + s, s + s, s + "1", s + "\x00", "\t" + s + "\n", s[1:] + s[:1],
			strings.ReplaceAll(s, " ", ""), strings.ReplaceAll(s, " ", "_"), strings.ReplaceAll(s, " ", "  "), "", "*", "0", "1", "-1", "null"}
		var out []string
		for _, x := range r {
			if x != s {
				out = append(out, x)
			}
		}
		return out
	}
	for _, c := range []struct {
		what, name string
		mut        func(d *JNode, n string)
	}{
		{"first node of an element", node, func(d *JNode, n string) {
			d.at("elements", frame).del("hinges")
			d.at("elements", frame, "nodes").arr[0] = jstr(n)
		}},
		{"last node of an element", far, func(d *JNode, n string) { d.at("elements", frame, "nodes").arr[1] = jstr(n) }},
		{"material of an element", mat, func(d *JNode, n string) { d.at("elements", frame).set("material", jstr(n)) }},
		{"cross section of an element", cs, func(d *JNode, n string) { d.at("elements", truss).set("cs", jstr(n)) }},
		{"node of a hinge", node, func(d *JNode, n string) { rename(d.at("elements", frame, "hinges"), node, Str{n}) }},
		{"supported node", node, func(d *JNode, n string) { rename(d.at("dirichlet"), node, Str{n}) }},
		{"supported node", "top", func(d *JNode, n string) { rename(d.at("dirichlet"), "top", Str{n}) }},
		{"linked node", far, func(d *JNode, n string) { rename(d.at("links"), far, Str{n}) }},
		{"loaded node", node, func(d *JNode, n string) { rename(d.at("neumann"), node, Str{n}) }},
		{"loaded element", frame, func(d *JNode, n string) { rename(d.at("neumann"), frame, Str{n}) }},
		{"loaded element", truss, func(d *JNode, n string) { rename(d.at("neumann"), truss, Str{n}) }},
	} {
		bothOrders(k, c.what+" "+c.name+" by similar names", func(it *Interp) {
			for _, n := range similar(c.name) {
				doc := build()
				c.mut(doc, n)
				k.mustReject("rejected", fmt.Sprintf("%q instead of %v %q", n, c.what, c.name), doc, yes)
			}
		})
	}
}
