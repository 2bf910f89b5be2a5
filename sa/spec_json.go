package main

// Documents: the mesh and the conditions they describe.

import (
	"fmt"
	"go/types"
	"strings"
)

// validDoc is a valid model that uses every part of the format.
func validDoc() *JNode {
	return jobj(
		"nodes", jobj(
			"A", jarr(jint(0), jint(0), jint(0)),
			"B", jarr(jint(4), jint(0), jint(0)),
			"C", jarr(jint(4), jint(0), jint(3))),
		"material", jobj("default", jobj("kind", jstr("linelast"), "parameter", jobj("E", jint(210), "nu", jint(0), "rho", jint(1)))),
		"crosssection", jobj("default", jobj("kind", jstr("constants"), "parameter", jobj("A", jint(1), "Iyy", jint(2), "Izz", jint(3)))),
		"elements", jobj(
			"AB", jobj("kind", jstr("frame2d"), "hinges", jobj("B", jarr(jstr("Phiy")))),
			"diag", jobj("kind", jstr("truss2d"), "nodes", jarr(jstr("A"), jstr("C")), "cs", jstr("default"), "material", jstr("default")),
			"CB", jobj("kind", jstr("frame2d"))),
		"dirichlet", jobj("A", jarr(jobj("Ux", jint(0), "Uz", jint(0))), "C", jarr(jobj("Ux", jint(0)))),
		"links", jobj("B", jarr(jobj("from", jstr("Ux"), "to", jstr("Uz"), "angle", jnum(ratPoly(1, 2))))),
		"neumann", jobj(
			"C", jarr(jobj("Fz", jint(5), "My", jint(2))),
			"AB", jarr(
				jobj("kind", jstr("qz"), "degree", jstr("linear"), "values", jarr(jint(1), jint(2))),
				jobj("kind", jstr("Fz"), "degree", jstr("dirac"), "values", jarr(jint(7)), "position", jarr(jint(1)))),
			"CB", jarr(jobj("kind", jstr("qx"), "degree", jstr("constant"), "values", jarr(jint(1))))),
	)
}

func (k *Check) parse(doc *JNode) (p, err V) {
	return k.it.call2("ProblemFromJSON", &JData{n: doc})
}

const parseFn = "ProblemFromJSON"

// mustParse parses a valid document.
func (k *Check) mustParse(rule string, doc *JNode) (V, bool) {
	p, err := k.parse(doc)
	if !k.errNil(rule, parseFn, "parsing the valid document "+doc.String(), err) {
		return nil, false
	}
	return k.it.ctx().restrict(p), true
}

func (it *Interp) problemField(p V, name string) V {
	return it.ctx().restrict(it.field(p, it.prog.typ("Problem"), name))
}

// list of a problem's field; its length must be known.
func (k *Check) list(rule string, p V, name string) ([]V, bool) {
	s, ok := k.it.problemField(p, name).(Slice)
	if !k.expect(rule, parseFn, ok, "the length of %v depends on more than the document", name) {
		return nil, false
	}
	return k.it.elems(s), true
}

// params of materials and cross sections in documents
func materialDoc(m *matParams) *JNode {
	return jobj("kind", jstr("linelast"), "parameter", jobj("E", jnum(m.E), "nu", jnum(m.nu), "rho", jnum(m.rho)))
}

func constantsDoc(m *matParams) *JNode {
	p := jobj("A", jnum(m.A), "Iyy", jnum(m.Iyy), "Izz", jnum(m.Izz))
	if m.Ixx != nil {
		p.set("Ixx", jnum(m.Ixx))
	}
	if m.roll != nil {
		p.set("roll", jnum(m.roll))
	}
	return jobj("kind", jstr("constants"), "parameter", p)
}

type rect struct{ b, h, roll *Poly }

func (r rect) params() *matParams {
	return &matParams{rect: true, A: r.b.Mul(r.h), Iyy: r.b.Mul(r.h.Pow(3)).Mul(ratPoly(1, 12)), Izz: r.h.Mul(r.b.Pow(3)).Mul(ratPoly(1, 12)), roll: r.roll}
}

func (r rect) doc() *JNode {
	p := jobj("b", jnum(r.b), "h", jnum(r.h))
	if r.roll != nil {
		p.set("roll", jnum(r.roll))
	}
	return jobj("kind", jstr("rectangle"), "parameter", p)
}

func newMat(tag string) *matParams {
	return &matParams{E: msym("E" + tag), nu: sym("nu" + tag), rho: sym("rho" + tag)}
}

func newConstants(tag string, optional bool) *matParams {
	m := &matParams{A: msym("A" + tag), Iyy: msym("Iyy" + tag), Izz: msym("Izz" + tag)}
	if optional {
		m.Ixx, m.roll = psym("Ixx"+tag), psym("roll"+tag)
	}
	return m
}

func (m *matParams) with(cs *matParams) *matParams {
	r := *cs
	r.E, r.nu, r.rho = m.E, m.nu, m.rho
	return &r
}

// nodes of a triangle with rational side ratios, of arbitrary size and position
type triangle struct {
	names      [3]string
	at         [3][3]*Poly
	h, x, y, z *Poly
}

func newTriangle(a, b, c string) *triangle {
	t := &triangle{names: [3]string{a, b, c}, h: psym("h"), x: sym("x"), y: sym("y"), z: sym("z")}
	up := func(p *Poly, n int64) *Poly { return p.Add(t.h.Mul(intPoly(n))) }
	t.at = [3][3]*Poly{{t.x, t.y, t.z}, {up(t.x, 4), t.y, t.z}, {up(t.x, 4), t.y, up(t.z, 3)}}
	return t
}

func coords(c [3]*Poly) *JNode { return jarr(jnum(c[0]), jnum(c[1]), jnum(c[2])) }

func (t *triangle) doc() *JNode {
	return jobj(t.names[0], coords(t.at[0]), t.names[1], coords(t.at[1]), t.names[2], coords(t.at[2]))
}

func (t *triangle) geom(i, j int) *geometry {
	g := &geometry{id0: t.names[i], id1: t.names[j]}
	n := map[[2]int][3]int64{{0, 1}: {4, 0, 4}, {1, 2}: {0, 3, 3}, {0, 2}: {4, 3, 5}}
	d, ok := n[[2]int{i, j}]
	if !ok {
		d = n[[2]int{j, i}]
		d[0], d[1] = -d[0], -d[1]
	}
	g.L = t.h.Mul(intPoly(d[2]))
	g.c, g.s = ratPoly(d[0], d[2]), ratPoly(d[1], d[2])
	g.cx, g.cy, g.cz = g.c, zeroPoly, g.s
	return g
}

type docElem struct {
	id string
	e  *elemSpec
}

// checkNodes demands exactly the given nodes.
func (k *Check) checkNodes(p V, want map[string][3]*Poly) {
	const rule = "mesh-nodes"
	it := k.it
	got, ok := k.list(rule, p, "Nodes")
	if !ok {
		return
	}
	nt := it.prog.typ("Node")
	k.expect(rule, parseFn, len(got) == len(want), "%d nodes, must be %d", len(got), len(want))
	for _, id := range keysOf(want) {
		var hit V
		n := 0
		for _, v := range got {
			if s, ok := it.ctx().restrict(it.field(v, nt, "ID")).(Str); ok && s.s == id {
				hit = v
				n++
			}
		}
		if k.expect(rule, parseFn, n == 1, "node %q exists %d times", id, n) {
			for i, c := range []string{"X", "Y", "Z"} {
				k.eq(rule, parseFn, "coordinate "+c+" of a node", it.field(hit, nt, c), want[id][i])
			}
		}
	}
}

// elementsByID demands exactly the given identifiers.
func (k *Check) elementsByID(p V, want []string) map[string]V {
	const rule = "mesh-elements"
	it := k.it
	got, ok := k.list(rule, p, "Elements")
	if !ok {
		return nil
	}
	k.expect(rule, parseFn, len(got) == len(want), "%d elements, must be %d", len(got), len(want))
	r := map[string]V{}
	for _, id := range want {
		n := 0
		for _, v := range got {
			if s, ok := it.ctx().restrict(it.callMethod(v, "ID")).(Str); ok && s.s == id {
				r[id] = v
				n++
			}
		}
		if !k.expect(rule, parseFn, n == 1, "element %q exists %d times", id, n) {
			delete(r, id)
		}
	}
	return r
}

// checkElement demands the behaviour of an element that was created with the given specification.
func (k *Check) checkElement(elem V, e *elemSpec, marker bool) {
	const rule = "mesh-elements"
	it := k.it
	k.eq(rule, parseFn, "number of nodes of "+e.kind, it.callMethod(elem, "NumNodes"), Int(2))
	got := strings.Join(it.indexKeys(elem), " ")
	want := strings.Join(sorted(e.globalKeys()), " ")
	if !k.expect(rule, parseFn, got == want, "a %v element from %v to %v uses %v, must use %v", e.kind, e.g.id0, e.g.id1, got, want) {
		return
	}
	s := k.newSystem([]V{elem}, []string{"~/Ux"}, []string{"~/Ux"})
	k.checkAssemble(rule, e, elem, s)
	if marker {
		// an unsymmetric load tells the start from the end
		l := linearLoad("Ux")
		k.holds(rule, parseFn, "acceptance of an axial load", it.callMethod(elem, "AddLoad", it.newLoad(l)))
		e2 := *e
		e2.loads = append(append([]load(nil), e.loads...), l)
		k.checkAssemble(rule, &e2, elem, s)
		k.checkInterpolation(&e2, elem, s, interpRules{equil: rule, compat: rule})
	} else {
		k.checkInterpolation(e, elem, s, interpRules{equil: rule, compat: rule})
	}
	k.checkRetained(elem, e.m)
}

// checkRetained looks for stored materials and compares their parameters, also those no result depends on.
func (k *Check) checkRetained(elem V, m *matParams) {
	const rule = "mesh-parameters"
	it := k.it
	lin, cs := it.prog.typ("LinearElastic"), it.prog.typ("CrossSection")
	it.walk(elem, nil, map[*Obj]bool{}, func(v V, t types.Type) {
		switch {
		case types.Identical(t, lin):
			for n, p := range map[string]*Poly{"YoungsModulus": m.E, "PoissonsRatio": m.nu, "Density": m.rho} {
				k.eq(rule, parseFn, n, it.field(v, t, n), p)
			}
		case types.Identical(t, cs):
			if i, ok := v.(Iface); !ok || i.typ == nil {
				return
			}
			for n, p := range map[string]*Poly{"Area": m.A, "Iyy": m.Iyy, "Izz": m.Izz, "Ixx": m.Ixx, "RollAngle": m.roll} {
				if p == nil {
					p = zeroPoly
					if n == "Ixx" && m.rect {
						continue // torsion constant of a rectangle, see C18
					}
				}
				k.eq(rule, parseFn, n, it.callMethod(v, n), p)
			}
		}
	})
}

// walk visits every value reachable from v with its static type.
func (it *Interp) walk(v V, t types.Type, seen map[*Obj]bool, f func(v V, t types.Type)) {
	v = it.ctx().restrict(v)
	if t != nil {
		f(v, t)
	}
	switch x := v.(type) {
	case Iface:
		if x.typ != nil {
			it.walk(x.val, x.typ, seen, f)
		}
	case Ptr:
		if x.o == nil || seen[x.o] || t == nil {
			return
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			seen[x.o] = true
			it.walk(it.getPath(it.content(x.o), splitPath(x.path)), pt.Elem(), seen, f)
		}
	case Slice:
		if st, ok := t.Underlying().(*types.Slice); ok && x.o != nil {
			for _, e := range it.elems(x) {
				it.walk(e, st.Elem(), seen, f)
			}
		}
	case Struct:
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := range x.f {
				it.walk(x.f[i], st.Field(i).Type(), seen, f)
			}
		}
	}
}

func elementDoc(e *elemSpec, nodes bool, mat, cs string) *JNode {
	d := jobj("kind", jstr(e.kind))
	if nodes {
		d.set("nodes", jarr(jstr(e.g.id0), jstr(e.g.id1)))
	}
	if mat != "" {
		d.set("material", jstr(mat))
	}
	if cs != "" {
		d.set("cs", jstr(cs))
	}
	if len(e.hinges) > 0 {
		h := jobj()
		for _, i := range e.hinges {
			n, dof := splitKey(e.localHingeName(i))
			var l *JNode
			for _, ent := range h.obj {
				if ent.key.(Str).s == n {
					l = ent.val
				}
			}
			if l == nil {
				l = jarr()
				h.set(n, l)
			}
			l.arr = append(l.arr, jstr(dof))
		}
		d.set("hinges", h)
	}
	return d
}

// clamp prescribes everything at a node; enough for any document to have a support.
func clamp(node string) *JNode { return jobj(node, jarr(jobj("Ux", jint(0)))) }

func bothOrders(k *Check, name string, f func(it *Interp)) {
	for _, rev := range []bool{false, true} {
		k.scenario(fmt.Sprintf("%s, maps iterated backwards: %v", name, rev), func(it *Interp) {
			it.mapReverse = rev
			f(it)
		})
	}
}

var docKinds = []string{"truss2d", "truss3d", "frame2d"}

func runC10(k *Check) {
	bothOrders(k, "nodes", func(it *Interp) {
		nodes := map[string][3]*Poly{}
		nd := jobj()
		for _, id := range []string{"B", "A", "AB", "a", "", "Ux", "10", "1", "default"} {
			c := [3]*Poly{sym("x" + id), sym("y" + id), sym("z" + id)}
			if id == "A" {
				c = [3]*Poly{psym("L").Add(nodes["B"][0]), nodes["B"][1], nodes["B"][2]}
			}
			nodes[id] = c
			nd.set(id, coords(c))
		}
		doc := jobj("nodes", nd, "material", jobj("m", materialDoc(newMat(""))), "crosssection", jobj("c", constantsDoc(newConstants("", true))),
			"elements", jobj("AB", jobj("kind", jstr("truss3d"))), "dirichlet", clamp("A"))
		if p, ok := k.mustParse("mesh-nodes", doc); ok {
			k.checkNodes(p, nodes)
			k.elementsByID(p, []string{"AB"})
			for _, f := range []string{"Neumann", "EqTransforms"} {
				if l, ok := k.list("mesh-nodes", p, f); ok {
					k.expect("mesh-nodes", parseFn, len(l) == 0, "%d entries in %v that the document doesn't describe", len(l), f)
				}
			}
		}
	})
	// one element: every kind, every way to state its nodes
	type conn struct {
		id       string
		names    [3]string
		i, j     int
		explicit bool
	}
	conns := []conn{
		{"AB", [3]string{"A", "B", "C"}, 0, 1, false},
		{"BA", [3]string{"A", "B", "C"}, 1, 0, false},
		{"CA", [3]string{"A", "B", "C"}, 2, 0, false},
		{"AB", [3]string{"A", "B", "C"}, 1, 2, true},
		{"AB", [3]string{"A", "B", "C"}, 1, 0, true},
		{"beam", [3]string{"A", "B", "C"}, 2, 1, true},
		{"12", [3]string{"12", "1", "2"}, 1, 2, false},
		{"12", [3]string{"12", "1", "2"}, 0, 2, true},
		{"e", [3]string{"left", "right", "top"}, 0, 2, true},
	}
	for _, kind := range docKinds {
		for ci, c := range conns {
			bothOrders(k, fmt.Sprintf("%s, connectivity %d (%s)", kind, ci, c.id), func(it *Interp) {
				t := newTriangle(c.names[0], c.names[1], c.names[2])
				mat, cs := newMat(""), newConstants("", ci%2 == 0)
				e := &elemSpec{kind: kind, g: t.geom(c.i, c.j), m: mat.with(cs)}
				doc := jobj("nodes", t.doc(), "material", jobj("steel", materialDoc(mat)), "crosssection", jobj("round", constantsDoc(cs)),
					"elements", jobj(c.id, elementDoc(e, c.explicit, "", "")), "dirichlet", clamp(c.names[c.i]))
				p, ok := k.mustParse("mesh-elements", doc)
				if !ok {
					return
				}
				k.checkNodes(p, map[string][3]*Poly{c.names[0]: t.at[0], c.names[1]: t.at[1], c.names[2]: t.at[2]})
				if el, ok := k.elementsByID(p, []string{c.id})[c.id]; ok {
					k.checkElement(el, e, true)
				}
			})
		}
		// hinges
		n := 2
		if kind == "frame2d" {
			n = 6
		}
		for _, h := range subsetsOf(n, 3) {
			e := &elemSpec{kind: kind, hinges: h}
			if len(h) == 0 || !mustAccept(e) {
				continue
			}
			// a name that is stated again makes no difference
			for repeat := 1; repeat < 4; repeat++ {
				k.scenario(fmt.Sprintf("%s, hinges %v, names repeated (%d)", kind, h, repeat), func(it *Interp) {
					t := newTriangle("P", "Q", "R")
					mat, cs := newMat(""), newConstants("", false)
					e := &elemSpec{kind: kind, g: t.geom(2, 0), m: mat.with(cs), hinges: h}
					el := elementDoc(e, true, "m", "c")
					for _, l := range el.at("hinges").obj {
						a := l.val.arr
						switch repeat {
						case 1:
							l.val.arr = append(append([]*JNode(nil), a...), a...)
						case 2:
							l.val.arr = append([]*JNode{a[0]}, a...)
						case 3:
							l.val.arr = append(append([]*JNode{a[len(a)-1]}, a...), a[0])
						}
					}
					doc := jobj("nodes", t.doc(), "material", jobj("m", materialDoc(mat)), "crosssection", jobj("c", constantsDoc(cs)),
						"elements", jobj("x", el), "dirichlet", clamp("P"))
					if p, ok := k.mustParse("mesh-hinges", doc); ok {
						if el, ok := k.elementsByID(p, []string{"x"})["x"]; ok {
							k.checkElement(el, e, false)
						}
					}
				})
			}
			bothOrders(k, fmt.Sprintf("%s, hinges %v", kind, h), func(it *Interp) {
				t := newTriangle("P", "Q", "R")
				mat, cs := newMat(""), newConstants("", false)
				e := &elemSpec{kind: kind, g: t.geom(0, 2), m: mat.with(cs), hinges: h}
				doc := jobj("nodes", t.doc(), "material", jobj("m", materialDoc(mat)), "crosssection", jobj("c", constantsDoc(cs)),
					"elements", jobj("PR", elementDoc(e, false, "m", "c")), "dirichlet", clamp("P"))
				if p, ok := k.mustParse("mesh-hinges", doc); ok {
					if el, ok := k.elementsByID(p, []string{"PR"})["PR"]; ok {
						k.checkElement(el, e, false)
					}
				}
			})
		}
	}
	// whatever two nodes an element is named after
	ids := []string{"A", "z", "0", "1", "9", "a", "Z", "-", "_", " ", ".", "/", "\"", "x", "B"}
	if k.thor {
		ids = nil
		for c := ' '; c <= '~'; c++ {
			ids = append(ids, string(c))
		}
	}
	for i := range ids {
		for j := 0; j < i; j += 2 {
			third := ids[(i+j+1)%len(ids)]
			if j+1 < i {
				third = ids[j+1]
			}
			if third == ids[i] || third == ids[j] {
				third = ids[(i+1)%len(ids)]
			}
			k.scenario(fmt.Sprintf("elements named after nodes %q", []string{ids[i], ids[j], third}), func(it *Interp) {
				t := newTriangle(ids[i], ids[j], third)
				mat, cs := newMat(""), newConstants("", false)
				ed := jobj()
				specs := map[string]*elemSpec{}
				for a, ab := range [][2]int{{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}} {
					e := &elemSpec{kind: docKinds[a%3], g: t.geom(ab[0], ab[1]), m: mat.with(cs)}
					id := t.names[ab[0]] + t.names[ab[1]]
					specs[id] = e
					ed.set(id, elementDoc(e, false, "m", "c"))
				}
				doc := jobj("nodes", t.doc(), "material", jobj("m", materialDoc(mat)), "crosssection", jobj("c", constantsDoc(cs)),
					"elements", ed, "dirichlet", clamp(ids[i]))
				if p, ok := k.mustParse("mesh-elements", doc); ok {
					got := k.elementsByID(p, keysOf(specs))
					for _, id := range keysOf(got) {
						k.checkElement(got[id], specs[id], false)
					}
				}
			})
		}
	}
	// more of everything
	bothOrders(k, "many elements", func(it *Interp) {
		n := 34
		t := newTriangle("A", "B", "C")
		nodes := map[string][3]*Poly{"A": t.at[0], "B": t.at[1], "C": t.at[2]}
		nd, md, cd, ed := t.doc(), jobj(), jobj(), jobj()
		mats, css := map[string]*matParams{}, map[string]*matParams{}
		specs := map[string]*elemSpec{}
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("n%d", i)
			nodes[id] = [3]*Poly{sym("x" + id), sym("y" + id), sym("z" + id)}
			nd.set(id, coords(nodes[id]))
			m, c := fmt.Sprintf("m%d", i), fmt.Sprintf("c%d", i)
			mats[m], css[c] = newMat(m), newConstants(c, i%3 == 0)
			md.set(m, materialDoc(mats[m]))
			cd.set(c, constantsDoc(css[c]))
		}
		for i := 0; i < n; i++ {
			m, c := fmt.Sprintf("m%d", (i*7+3)%n), fmt.Sprintf("c%d", (i*5+1)%n)
			e := &elemSpec{kind: docKinds[i%3], g: t.geom(i%3, (i+1+i/3%2)%3), m: mats[m].with(css[c])}
			id := fmt.Sprintf("e%d", i)
			specs[id] = e
			ed.set(id, elementDoc(e, true, m, c))
		}
		doc := jobj("nodes", nd, "material", md, "crosssection", cd, "elements", ed, "dirichlet", clamp("n7"))
		if p, ok := k.mustParse("mesh-elements", doc); ok {
			k.checkNodes(p, nodes)
			got := k.elementsByID(p, keysOf(specs))
			for _, id := range keysOf(got) {
				k.checkElement(got[id], specs[id], false)
			}
		}
	})
	// several elements, materials and cross sections
	bothOrders(k, "several elements", func(it *Interp) {
		t := newTriangle("A", "B", "C")
		m1, m2 := newMat("1"), newMat("2")
		c1, c2 := newConstants("1", true), newConstants("2", false)
		r := rect{psym("b"), psym("w"), psym("roll")}
		c3 := r.params()
		mats := map[string]*matParams{"m1": m1, "m2": m2}
		css := map[string]*matParams{"c1": c1, "c2": c2, "c3": c3}
		type el struct {
			id, kind string
			i, j     int
			hinges   []int
			mat, cs  string
		}
		els := []el{
			{"AB", "frame2d", 0, 1, nil, "m1", "c2"},
			{"BC", "truss2d", 1, 2, []int{1}, "m2", "c1"},
			{"s1", "frame2d", 0, 2, []int{2}, "m1", "c3"},
			{"s2", "truss3d", 2, 0, nil, "m2", "c3"},
			{"s3", "frame2d", 2, 0, []int{3, 5}, "m2", "c1"},
			{"CA", "truss2d", 2, 0, nil, "m1", "c1"},
		}
		ed := jobj()
		var ids []string
		specs := map[string]*elemSpec{}
		for _, x := range els {
			e := &elemSpec{kind: x.kind, g: t.geom(x.i, x.j), m: mats[x.mat].with(css[x.cs]), hinges: x.hinges}
			specs[x.id] = e
			ids = append(ids, x.id)
			ed.set(x.id, elementDoc(e, len(x.id) != 2 || x.id[0] == 's', x.mat, x.cs))
		}
		doc := jobj("nodes", t.doc(), "material", jobj("m2", materialDoc(m2), "m1", materialDoc(m1)),
			"crosssection", jobj("c1", constantsDoc(c1), "c3", r.doc(), "c2", constantsDoc(c2)),
			"elements", ed, "dirichlet", clamp("A"))
		p, ok := k.mustParse("mesh-elements", doc)
		if !ok {
			return
		}
		k.checkNodes(p, map[string][3]*Poly{"A": t.at[0], "B": t.at[1], "C": t.at[2]})
		got := k.elementsByID(p, ids)
		for _, id := range keysOf(got) {
			k.checkElement(got[id], specs[id], true)
		}
	})
	// names that are parts or concatenations of others
	bothOrders(k, "similar names", func(it *Interp) {
		t := newTriangle("a", "ab", "b")
		mats, css := map[string]*matParams{}, map[string]*matParams{}
		md, cd, ed := jobj(), jobj(), jobj()
		for _, n := range []string{"a", "ab", "abc", "A", "a b", "a/b"} {
			mats[n] = newMat(n)
			md.set(n, materialDoc(mats[n]))
		}
		for _, n := range []string{"c", "bc", "abc", "b c", "b/c", "a"} {
			css[n] = newConstants(n, false)
			cd.set(n, constantsDoc(css[n]))
		}
		var ids []string
		specs := map[string]*elemSpec{}
		for i, x := range [][3]string{{"1", "a", "bc"}, {"11", "ab", "c"}, {"111", "a", "abc"}, {"a", "a b", "c"}, {"ab", "a", "b c"}, {"a/b", "a/b", "c"},
			{"A", "a", "b/c"}, {"AB", "A", "bc"}, {"a b", "abc", "a"}, {"abc", "a", "a"}, {"bc", "abc", "abc"}} {
			e := &elemSpec{kind: []string{"frame2d", "truss2d", "truss3d"}[i%3], g: t.geom(i%3, (i+1+i/6)%3), m: mats[x[1]].with(css[x[2]])}
			specs[x[0]] = e
			ids = append(ids, x[0])
			ed.set(x[0], elementDoc(e, true, x[1], x[2]))
		}
		p, ok := k.mustParse("mesh-elements", jobj("nodes", t.doc(), "material", md, "crosssection", cd, "elements", ed, "dirichlet", clamp("ab")))
		if !ok {
			return
		}
		got := k.elementsByID(p, ids)
		for _, id := range keysOf(got) {
			k.checkElement(got[id], specs[id], false)
		}
	})
	for _, n := range nearlyEqualNames {
		bothOrders(k, fmt.Sprintf("names %q", n), func(it *Interp) {
			t := newTriangle(n[0], n[1], n[2])
			md, cd, ed := jobj(), jobj(), jobj()
			specs := map[string]*elemSpec{}
			for i, id := range n {
				m, c := newMat(fmt.Sprint(i)), newConstants(fmt.Sprint(i), false)
				mat, cs := n[(i+1)%3], n[(i+2)%3]
				md.set(mat, materialDoc(m))
				cd.set(cs, constantsDoc(c))
				e := &elemSpec{kind: []string{"frame2d", "truss2d", "truss3d"}[i], g: t.geom(i, (i+1)%3), m: m.with(c)}
				specs[id] = e
				ed.set(id, elementDoc(e, true, mat, cs))
			}
			p, ok := k.mustParse("mesh-elements", jobj("nodes", t.doc(), "material", md, "crosssection", cd, "elements", ed, "dirichlet", clamp(n[2])))
			if !ok {
				return
			}
			k.checkNodes(p, map[string][3]*Poly{n[0]: t.at[0], n[1]: t.at[1], n[2]: t.at[2]})
			got := k.elementsByID(p, n[:])
			for _, id := range keysOf(got) {
				k.checkElement(got[id], specs[id], false)
			}
		})
	}
	// omitted references
	for nm := 1; nm <= 2; nm++ {
		for nc := 1; nc <= 2; nc++ {
			for refs := 0; refs < 4; refs++ {
				bothOrders(k, fmt.Sprintf("%d materials, %d cross sections, references %d", nm, nc, refs), func(it *Interp) {
					t := newTriangle("A", "B", "C")
					md, cd := jobj(), jobj()
					var ms, cs []*matParams
					for i := 0; i < nm; i++ {
						m := newMat(fmt.Sprint(i))
						ms = append(ms, m)
						md.set(fmt.Sprintf("m%d", i), materialDoc(m))
					}
					for i := 0; i < nc; i++ {
						c := newConstants(fmt.Sprint(i), i == 0)
						cs = append(cs, c)
						cd.set(fmt.Sprintf("c%d", i), constantsDoc(c))
					}
					for pick := 0; pick < 2; pick++ {
						mi, ci := min(pick, nm-1), min(pick, nc-1)
						mr, cr := "", ""
						if refs&1 != 0 {
							mr = fmt.Sprintf("m%d", mi)
						}
						if refs&2 != 0 {
							cr = fmt.Sprintf("c%d", ci)
						}
						e := &elemSpec{kind: "frame2d", g: t.geom(1, 2), m: ms[mi].with(cs[ci])}
						doc := jobj("nodes", t.doc(), "material", md, "crosssection", cd, "elements", jobj("BC", elementDoc(e, false, mr, cr)), "dirichlet", clamp("B"))
						if (mr == "" && nm != 1) || (cr == "" && nc != 1) {
							_, err := k.parse(doc)
							k.errSet("mesh-references", parseFn, "an omitted reference with several candidates", err)
							continue
						}
						if p, ok := k.mustParse("mesh-references", doc); ok {
							if el, ok := k.elementsByID(p, []string{"BC"})["BC"]; ok {
								k.checkElement(el, e, false)
							}
						}
					}
				})
			}
		}
	}
}

// conditions ------------------------------------------------------------------

type cond struct {
	node, dof string
	v         *Poly
}

// checkValues demands exactly the given nodal values.
func (k *Check) checkValues(rule, what string, got []V, want []cond) {
	it := k.it
	t := it.prog.typ("NodalValue")
	k.expect(rule, parseFn, len(got) == len(want), "%d %v, must be %d", len(got), what, len(want))
	used := make([]bool, len(got))
	for _, w := range want {
		hit := -1
		for i, v := range got {
			if !used[i] && leafEqV(it.ctx(), it.field(v, t, "Index"), it.idx(w.node, w.dof)) && leafEqV(it.ctx(), it.field(v, t, "Value"), num(w.v)) {
				hit = i
				break
			}
		}
		if k.expect(rule, parseFn, hit >= 0, "no %v %v at %v/%v among %v", what, w.v, w.node, w.dof, showAll(got)) {
			used[hit] = true
		}
	}
}

func showAll(vs []V) string {
	var r []string
	for _, v := range vs {
		r = append(r, show(v))
	}
	return strings.Join(r, ", ")
}

var (
	dispNames  = map[string]string{"Ux": "Ux", "Uz": "Uz", "Uy": "Uy", "Phiy": "Phiy", "Phiz": "Phiz", "Phix": "Phix"}
	forceNames = map[string]string{"Fx": "Ux", "Fz": "Uz", "Fy": "Uy", "My": "Phiy", "Mz": "Phiz", "Mx": "Phix"}
	distNames  = map[string]string{"qx": "Ux", "qz": "Uz", "qy": "Uy", "my": "Phiy", "mz": "Phiz", "mx": "Phix"}
)

// modelDoc is a triangle with frames AB, BC and a truss AC.
// nearlyEqualNames are different, but only just.
var nearlyEqualNames = [][3]string{
	{" N", "N", "N "}, {"N\t", "n", "N\n"}, {"AB", "ab", "Ab"}, {"1", "01", "1.0"}, {"10", "1e1", "+10"}, {"é", "e", "É"},
	{"é", "e\u0301", "e"}, {"A-B", "A_B", "A B"}, {"\"A\"", "A", "'A'"}, {"N\u00a0", "N\u200b", "N"}, {"ß", "ss", "SS"}, {"K", "\u212a", "k"},
	{strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2", strings.Repeat("x", 300)}, {"12345678", "123456789", "1234567"},
}

func (k *Check) modelDoc() (*JNode, *triangle, map[string]*elemSpec) {
	t := newTriangle("A", "B", "C")
	mat, cs := newMat(""), newConstants("", false)
	m := mat.with(cs)
	es := map[string]*elemSpec{
		"AB": {kind: "frame2d", g: t.geom(0, 1), m: m},
		"BC": {kind: "frame2d", g: t.geom(1, 2), m: m},
		"AC": {kind: "truss2d", g: t.geom(0, 2), m: m},
	}
	ed := jobj()
	for _, id := range []string{"BC", "AB", "AC"} {
		ed.set(id, elementDoc(es[id], false, "", ""))
	}
	return jobj("nodes", t.doc(), "material", jobj("m", materialDoc(mat)), "crosssection", jobj("c", constantsDoc(cs)), "elements", ed, "dirichlet", clamp("A")), t, es
}

func (k *Check) checkLoads(p V, es map[string]*elemSpec) {
	got := k.elementsByID(p, keysOf(es))
	for _, id := range keysOf(got) {
		s := k.newSystem([]V{got[id]}, []string{"~/Ux"}, []string{"~/Ux"})
		k.checkAssemble("element-loads", es[id], got[id], s)
		k.checkInterpolation(es[id], got[id], s, interpRules{equil: "element-loads", compat: "element-loads"})
	}
}

// checkConditions compares everything but links.
func (k *Check) checkConditions(p V, dir, neu []cond, es map[string]*elemSpec) {
	if l, ok := k.list("dirichlet", p, "Dirichlet"); ok {
		k.checkValues("dirichlet", "prescribed value", l, dir)
	}
	if l, ok := k.list("neumann", p, "Neumann"); ok {
		k.checkValues("neumann", "nodal load", l, neu)
	}
	if l, ok := k.list("links", p, "EqTransforms"); ok {
		k.expect("links", parseFn, len(l) == 0, "%d transformers that the document doesn't describe", len(l))
	}
	k.checkLoads(p, es)
}

func loadDoc(name string, l load, L *Poly) *JNode {
	switch l.typ {
	case "dirac":
		return jobj("kind", jstr(name), "degree", jstr("dirac"), "values", jarr(jnum(l.v0)), "position", jarr(jnum(l.pos)))
	case "const":
		return jobj("kind", jstr(name), "degree", jstr("constant"), "values", jarr(jnum(l.v0)))
	}
	return jobj("kind", jstr(name), "degree", jstr("linear"), "values", jarr(jnum(l.v0), jnum(l.v1)))
}

func runC11(k *Check) {
	base := []cond{{"A", "Ux", zeroPoly}}
	bothOrders(k, "nothing but a support", func(it *Interp) {
		doc, _, es := k.modelDoc()
		if p, ok := k.mustParse("dirichlet", doc); ok {
			k.checkConditions(p, base, nil, es)
		}
	})
	// every name alone
	bothOrders(k, "every displacement name", func(it *Interp) {
		for _, n := range keysOf(dispNames) {
			for _, at := range []string{"A", "C"} {
				doc, _, es := k.modelDoc()
				v := sym("v" + n + at)
				doc.set("dirichlet", jobj(at, jarr(jobj(n, jnum(v)))))
				if p, ok := k.mustParse("dirichlet", doc); ok {
					k.checkConditions(p, []cond{{at, dispNames[n], v}}, nil, es)
				}
			}
		}
	})
	bothOrders(k, "every force name", func(it *Interp) {
		for _, n := range keysOf(forceNames) {
			for _, at := range []string{"A", "C"} {
				doc, _, es := k.modelDoc()
				v := sym("v" + n + at)
				doc.set("neumann", jobj(at, jarr(jobj(n, jnum(v)))))
				if p, ok := k.mustParse("neumann", doc); ok {
					k.checkConditions(p, base, []cond{{at, forceNames[n], v}}, es)
				}
			}
		}
	})
	// all names at once, spread over nodes, objects and lists
	bothOrders(k, "all nodal conditions", func(it *Interp) {
		doc, _, es := k.modelDoc()
		var dir, neu []cond
		dd, nd := jobj(), jobj()
		for ni, at := range []string{"C", "A", "B"} {
			d := []*JNode{jobj(), jobj(), jobj()}
			f := []*JNode{jobj(), jobj(), jobj()}
			for i, n := range keysOf(dispNames) {
				v := sym("d" + n + at)
				d[(i+ni)%3].set(n, jnum(v))
				dir = append(dir, cond{at, dispNames[n], v})
			}
			for i, n := range keysOf(forceNames) {
				v := sym("f" + n + at)
				f[(i*2+ni)%3].set(n, jnum(v))
				neu = append(neu, cond{at, forceNames[n], v})
			}
			// several loads on the same degree of freedom add up
			w := sym("again" + at)
			f[0].obj = append([]JEnt(nil), f[0].obj...)
			var l []*JNode
			l = append(l, nonEmpty(f)...)
			l = append(l, jobj("Fz", jnum(w)))
			neu = append(neu, cond{at, "Uz", w})
			dd.set(at, jarr(d...))
			nd.set(at, jarr(l...))
		}
		doc.set("dirichlet", dd).set("neumann", nd)
		if p, ok := k.mustParse("dirichlet", doc); ok {
			k.checkConditions(p, dir, neu, es)
		}
	})
	// nodes by any name, and many of them
	odd := []string{"", " ", "0", "00", "AC2", "A B", "null", "Ux", "Fz", "dirichlet", "\u00e9", "\"", "a", "AA"}
	bothOrders(k, "conditions at nodes by any name", func(it *Interp) {
		for which := 0; which <= len(odd); which++ { // alone, and all at once
			doc, _, es := k.modelDoc()
			dir, neu := base, []cond(nil)
			dd, nd := jobj("A", jarr(jobj("Ux", jint(0)))), jobj()
			for i, id := range odd {
				if which != i && which != len(odd) {
					continue
				}
				doc.at("nodes").set(id, coords([3]*Poly{sym("x" + id), sym("y" + id), sym("z" + id)}))
				u, f, g := sym("u"+id), sym("f"+id), sym("g"+id)
				dd.set(id, jarr(jobj("Uz", jnum(u)), jobj("Phiy", jint(0))))
				nd.set(id, jarr(jobj("Fx", jnum(f)), jobj("Mz", jnum(g))))
				dir = append(dir[:len(dir):len(dir)], cond{id, "Uz", u}, cond{id, "Phiy", zeroPoly})
				neu = append(neu, cond{id, "Ux", f}, cond{id, "Phiz", g})
			}
			doc.set("dirichlet", dd).set("neumann", nd)
			if p, ok := k.mustParse("dirichlet", doc); ok {
				k.checkConditions(p, dir, neu, es)
			}
		}
	})
	bothOrders(k, "many conditions", func(it *Interp) {
		doc, _, es := k.modelDoc()
		dir, neu := base, []cond(nil)
		dd, nd := jobj("A", jarr(jobj("Ux", jint(0)))), jobj()
		many := jarr()
		for i := 0; i < 130; i++ {
			id := fmt.Sprintf("n%d", i)
			doc.at("nodes").set(id, coords([3]*Poly{sym("x" + id), sym("y" + id), sym("z" + id)}))
			u, f, g := sym("u"+id), sym("f"+id), sym("g"+id)
			dd.set(id, jarr(jobj("Uz", jnum(u), "Phix", jnum(g))))
			nd.set(id, jarr(jobj("Fx", jnum(f), "My", jnum(u))))
			many.arr = append(many.arr, jobj("Fz", jnum(g)))
			dir = append(dir[:len(dir):len(dir)], cond{id, "Uz", u}, cond{id, "Phix", g})
			neu = append(neu, cond{id, "Ux", f}, cond{id, "Phiy", u}, cond{"B", "Uz", g})
		}
		nd.set("B", many)
		loads := jarr()
		for i := 0; i < 12; i++ {
			l := linearLoad("Uz")
			l.v0, l.v1 = sym(fmt.Sprint("v", i)), sym(fmt.Sprint("w", i))
			es["BC"].loads = append(es["BC"].loads, l)
			loads.arr = append(loads.arr, loadDoc("qz", l, nil))
		}
		nd.set("BC", loads)
		doc.set("dirichlet", dd).set("neumann", nd)
		if p, ok := k.mustParse("dirichlet", doc); ok {
			k.checkConditions(p, dir, neu, es)
		}
	})
	// element loads, each kind alone
	for _, id := range []string{"AB", "BC", "AC"} {
		for _, typ := range []string{"dirac", "const", "linear"} {
			bothOrders(k, "element load "+typ+" on "+id, func(it *Interp) {
				_, _, es0 := k.modelDoc()
				for _, names := range []map[string]string{forceNames, distNames} {
					for _, n := range keysOf(names) {
						dof := names[n]
						if !es0[id].accepts(typ, dof) {
							continue
						}
						doc, _, es := k.modelDoc()
						e := es[id]
						l := load{typ: typ, kind: dof, v0: sym("v0" + n), v1: sym("v1" + n)}
						if typ == "dirac" {
							l = it.newDirac(dof, e.g.L)
						}
						e.loads = []load{l}
						doc.set("neumann", jobj(id, jarr(loadDoc(n, l, e.g.L))))
						if p, ok := k.mustParse("element-loads", doc); ok {
							k.checkConditions(p, base, nil, es)
						}
					}
				}
			})
		}
	}
	bothOrders(k, "several element loads mixed with nodal ones", func(it *Interp) {
		doc, t, es := k.modelDoc()
		es["AB"].loads = []load{linearLoad("Uz"), it.newDirac("Phiy", es["AB"].g.L), constLoad("Ux")}
		q := constLoad("Ux")
		q.v0 = sym("qAC")
		es["AC"].loads = []load{q}
		l2 := linearLoad("Uz")
		l2.v0, l2.v1 = sym("p0"), sym("p1")
		es["BC"].loads = []load{l2, constLoad("Uz")}
		list := func(id string, names ...string) *JNode {
			r := jarr()
			for i, l := range es[id].loads {
				r.arr = append(r.arr, loadDoc(names[i], l, es[id].g.L))
			}
			return r
		}
		ab := list("AB", "qz", "My", "Fx")
		// a node that has the name of an element
		doc.at("nodes").set("AB", coords([3]*Poly{sym("x4"), sym("y4"), sym("z4")}))
		f1, f2, f3 := sym("f1"), sym("f2"), sym("f3")
		ab.arr = []*JNode{ab.arr[0], jobj("Fx", jnum(f1)), ab.arr[1], ab.arr[2], jobj("My", jnum(f2))}
		doc.set("neumann", jobj("BC", list("BC", "qz", "qz"), "B", jarr(jobj("Fz", jnum(f3))), "AB", ab, "AC", list("AC", "qx")))
		_ = t
		if p, ok := k.mustParse("element-loads", doc); ok {
			k.checkConditions(p, base, []cond{{"AB", "Ux", f1}, {"AB", "Phiy", f2}, {"B", "Uz", f3}}, es)
		}
	})
	bothOrders(k, "the same element load twice", func(it *Interp) {
		doc, _, es := k.modelDoc()
		l := linearLoad("Uz")
		es["BC"].loads = []load{l, l}
		doc.set("neumann", jobj("BC", jarr(loadDoc("qz", l, nil), loadDoc("qz", l, nil))))
		if p, ok := k.mustParse("element-loads", doc); ok {
			k.checkConditions(p, base, nil, es)
		}
	})
	for _, n := range nearlyEqualNames {
		bothOrders(k, fmt.Sprintf("loads of elements and nodes %q", n), func(it *Interp) {
			t := newTriangle(n[1], n[2], n[0])
			mat, cs := newMat(""), newConstants("", false)
			ed, nd := jobj(), jobj()
			es := map[string]*elemSpec{}
			var neu, dir []cond
			for i, id := range n {
				l := constLoad("Uz")
				l.v0 = sym("q" + fmt.Sprint(i))
				e := &elemSpec{kind: "frame2d", g: t.geom(i, (i+1)%3), m: mat.with(cs), loads: []load{l}}
				es[id] = e
				ed.set(id, elementDoc(e, true, "", ""))
				f := sym("f" + fmt.Sprint(i))
				nd.set(id, jarr(jobj("Fx", jnum(f)), loadDoc("qz", l, nil)))
				neu = append(neu, cond{id, "Ux", f})
				dir = append(dir, cond{id, "Uz", sym("u" + fmt.Sprint(i))})
			}
			dd := jobj()
			for _, d := range dir {
				dd.set(d.node, jarr(jobj("Uz", jnum(d.v))))
			}
			doc := jobj("nodes", t.doc(), "material", jobj("m", materialDoc(mat)), "crosssection", jobj("c", constantsDoc(cs)), "elements", ed, "dirichlet", dd, "neumann", nd)
			if p, ok := k.mustParse("element-loads", doc); ok {
				k.checkConditions(p, dir, neu, es)
			}
		})
	}
	angle := func(i int) *Poly { return sym(fmt.Sprintf("angle%d", i)) }
	bothOrders(k, "the same link twice", func(it *Interp) {
		doc, _, _ := k.modelDoc()
		a := angle(0)
		d := func(from string, a *Poly) *JNode { return jobj("from", jstr(from), "to", jstr("Uz"), "angle", jnum(a)) }
		doc.set("links", jobj("B", jarr(d("Ux", a), d("Ux", a), d("Uy", angle(1)), d("Ux", a))))
		if p, ok := k.mustParse("links", doc); ok {
			if l, ok := k.list("links", p, "Dirichlet"); ok {
				k.expect("links", parseFn, len(l) == 5, "%d prescribed values for four links and one support", len(l))
			}
			if l, ok := k.list("links", p, "EqTransforms"); ok {
				k.expect("links", parseFn, len(l) == 4, "%d transformers for four links", len(l))
			}
		}
	})
	// links
	type ln struct{ node, from, to string }
	for _, ls := range [][]ln{
		{{"A", "Ux", "Uz"}}, {{"A", "Uz", "Ux"}}, {{"B", "Ux", "Uy"}}, {{"B", "Uy", "Uz"}}, {{"C", "Uz", "Uy"}}, {{"C", "Uy", "Ux"}},
		{{"", "Ux", "Uz"}}, {{"n", "Uz", "Uy"}, {"", "Uy", "Ux"}, {" ", "Uz", "Ux"}},
		{{"A", "Ux", "Uz"}, {"C", "Uz", "Ux"}}, {{"B", "Uz", "Uy"}, {"A", "Ux", "Uy"}, {"C", "Ux", "Uz"}},
	} {
		bothOrders(k, fmt.Sprintf("links %v", ls), func(it *Interp) {
			k.checkLinks(len(ls), func(i int) (string, string, string) { return ls[i].node, ls[i].from, ls[i].to }, angle)
		})
	}
	if k.thor {
		bothOrders(k, "two links at one node", func(it *Interp) {
			ls := []ln{{"A", "Ux", "Uz"}, {"A", "Ux", "Uy"}}
			k.checkLinks(len(ls), func(i int) (string, string, string) { return ls[i].node, ls[i].from, ls[i].to }, angle)
		})
	}
}

func nonEmpty(l []*JNode) []*JNode {
	var r []*JNode
	for _, n := range l {
		if len(n.obj) > 0 {
			r = append(r, n)
		}
	}
	return r
}

func (k *Check) checkLinks(n int, link func(i int) (node, from, to string), angle func(i int) *Poly) {
	const rule = "links"
	it := k.it
	doc, _, es := k.modelDoc()
	ld := jobj()
	used := map[string]bool{}
	var sup []support
	var dir []cond
	for i := 0; i < n; i++ {
		node, from, to := link(i)
		a := angle(i)
		if !strings.Contains("ABC", node) || node == "" {
			doc.at("nodes").set(node, coords([3]*Poly{sym("x" + node), sym("y" + node), sym("z" + node)}))
		}
		d := jobj("from", jstr(from), "to", jstr(to), "angle", jnum(a))
		var list *JNode
		for _, e := range ld.obj {
			if e.key.(Str).s == node {
				list = e.val
			}
		}
		if list == nil {
			list = jarr()
			ld.set(node, list)
		}
		list.arr = append(list.arr, d)
		sup = append(sup, support{node + "/" + from, node + "/" + to, a})
		dir = append(dir, cond{node, to, zeroPoly})
		used[node+"/"+from], used[node+"/"+to] = true, true
	}
	v := sym("settlement")
	doc.set("links", ld)
	doc.set("dirichlet", jobj("B", jarr(jobj("Phiy", jnum(v)))))
	p, ok := k.mustParse(rule, doc)
	if !ok {
		return
	}
	if l, ok := k.list(rule, p, "Dirichlet"); ok {
		k.checkValues(rule, "prescribed value", l, append(dir, cond{"B", "Phiy", v}))
	}
	if l, ok := k.list(rule, p, "Neumann"); ok {
		k.expect(rule, parseFn, len(l) == 0, "%d nodal loads that the document doesn't describe", len(l))
	}
	tr, ok := k.list(rule, p, "EqTransforms")
	if !ok || !k.expect(rule, parseFn, len(tr) == n, "%d transformers for %d links", len(tr), n) {
		return
	}
	k.checkLoads(p, es)
	// what the transformers do to an arbitrary system
	used["~/Ux"], used["~/Uz"] = true, true
	var bc []V
	for _, s := range sup {
		node, d := splitKey(s.to)
		bc = append(bc, it.nodalValue(node, d, zeroPoly))
	}
	sc := &solveCase{keys: keysOf(used), fixed: []string{"~/Ux"}, vals: map[string]*Poly{"~/Ux": sym("p")}, supports: sup, useTr: tr, useBC: bc}
	o := k.solve(rule, sc, it.call1("NewLinearProblemSolver"), "")
	k.checkResult(rule, o)
}

func init() {
	register(&propSpec{
		id: "C10", min: 3000,
		rule:   "abstract interpretation of ProblemFromJSON on documents with arbitrary coordinates and parameters (every kind of element, every way to state end nodes, every supported hinge set, several materials/cross sections, present and omitted references; maps iterated in either order): the node list must equal the described one, every element must contribute and interpolate exactly like the described element, stored parameters must be the stated ones",
		assume: []string{exact, "encoding/json decodes according to its documentation (modelled on abstract documents)"},
		run:    runC10,
	})
	register(&propSpec{
		id: "C11", min: 2000,
		rule:   "abstract interpretation of ProblemFromJSON on documents with arbitrary values for every condition name, object and list layout (maps iterated in either order): prescribed values and nodal loads must be exactly the described multisets, element loads are compared through assembly and interpolation with the specification, links through the system of equations a solve with the resulting transformers produces",
		assume: []string{exact, "encoding/json decodes according to its documentation (modelled on abstract documents)"},
		run:    runC11,
	})
}
