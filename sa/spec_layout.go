package main

// Numbering of unknowns and unknown degrees of freedom.

import (
	"cmp"
	"fmt"
	"strings"
)

// layoutOf calls NewEqLayout for stub elements with the given degrees of freedom.
func (it *Interp) layoutOf(elems [][]string, fixed []string, vals func(i int) *Poly) (lay, err V) {
	var es, bcs []V
	for i, keys := range elems {
		es = append(es, it.stubElement(cmp.Or(it.elementID, fmt.Sprintf("e%d", i)), keys, nil))
	}
	for i, f := range fixed {
		node, d := splitKey(f)
		v := intPoly(0)
		if vals != nil {
			v = vals(i)
		}
		bcs = append(bcs, it.nodalValue(node, d, v))
	}
	p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
		"Elements":  it.mkSlice("Element", es...),
		"Dirichlet": it.mkSlice("NodalValue", bcs...),
	}))
	return it.call2("NewEqLayout", p)
}

// numbering recovers the equation number of each degree of freedom by observing a result.
func (k *Check) numbering(rule string, elems [][]string, fixed []string) map[string]int {
	it := k.it
	lay, err := it.layoutOf(elems, fixed, nil)
	if !k.errNil(rule, "NewEqLayout", "numbering a valid problem", err) {
		return nil
	}
	used := map[string]bool{}
	for _, e := range elems {
		for _, key := range e {
			used[key] = true
		}
	}
	n := len(used)
	var marks []*Poly
	tr := it.stubTransform(nil, func(_ V, m ...Ptr) {
		h := it.hdr(m[1])
		k.expect(rule, "NewEqLayout", h.rows == n, "%d unknowns for %d degrees of freedom", h.rows, n)
		it.matFill(h, func(set func(i, j int, v V)) {
			for i := 0; i < h.rows; i++ {
				marks = append(marks, sym(fmt.Sprintf("mark%d", i)))
				set(i, 0, num(marks[i]))
			}
		})
	})
	var es, bcs []V
	for i, keys := range elems {
		es = append(es, it.stubElement(cmp.Or(it.elementID, fmt.Sprintf("e%d", i)), keys, nil))
	}
	for _, f := range fixed {
		node, d := splitKey(f)
		bcs = append(bcs, it.nodalValue(node, d, intPoly(0)))
	}
	p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
		"Elements": it.mkSlice("Element", es...), "Dirichlet": it.mkSlice("NodalValue", bcs...), "EqTransforms": it.mkSlice("Transformer", tr)}))
	res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, lay, it.stubSolver(nil)))
	if !k.errNil(rule, "Solve", "solving the probe problem", err) {
		return nil
	}
	pos := map[string]int{}
	taken := map[int]string{}
	byName := map[string][]int{}
	for i, a := range marks {
		byName[a.String()] = append(byName[a.String()], i)
	}
	for _, key := range keysOf(used) {
		node, d := splitKey(key)
		v, err := it.split(it.callMethod(res, "Primary", it.idx(node, d)))
		k.errNil(rule, "NewEqLayout", "looking up "+key, err)
		val := it.ctx().restrict(it.field(v, it.prog.typ("NodalValue"), "Value"))
		pos[key] = -1
		if x, ok := val.(Num); ok {
			for _, i := range byName[x.p.String()] {
				if x.p.Equal(marks[i]) {
					pos[key] = i
				}
			}
		}
		if !k.expect(rule, "NewEqLayout", pos[key] >= 0, "%v has no equation number (value %v)", key, show(val)) {
			return nil
		}
		if o, dup := taken[pos[key]]; dup {
			k.fail(rule, "NewEqLayout", "%v and %v share the equation number %d", key, o, pos[key])
		} else {
			k.pass(rule, "NewEqLayout")
		}
		taken[pos[key]] = key
	}
	isFixed := map[string]bool{}
	for _, f := range fixed {
		isFixed[f] = true
	}
	for _, key := range keysOf(pos) {
		k.expect(rule, "NewEqLayout", (pos[key] < len(isFixed)) == isFixed[key], "equation number %d of %v, of %d prescribed ones", pos[key], key, len(isFixed))
	}
	// the inverse mapping agrees
	all, ok := it.ctx().restrict(it.callMethod(res, "PrimaryAll")).(Slice)
	if k.expect(rule, "NewEqLayout", ok && all.len == n, "list of %v values for %d unknowns", all.len, n) {
		t := it.prog.typ("NodalValue")
		byIndex := map[string][]string{}
		for key := range pos {
			node, d := splitKey(key)
			byIndex[show(it.idx(node, d))] = append(byIndex[show(it.idx(node, d))], key)
		}
		for i, v := range it.elems(all) {
			var got string
			for _, key := range byIndex[show(it.field(v, t, "Index"))] {
				node, d := splitKey(key)
				if leafEqV(it.ctx(), it.field(v, t, "Index"), it.idx(node, d)) {
					got = key
				}
			}
			if k.expect(rule, "NewEqLayout", got != "", "entry %d of all values has an unknown index %v", i, show(it.field(v, t, "Index"))) {
				k.eq(rule, "NewEqLayout", "value listed for "+got, it.field(v, t, "Value"), marks[pos[got]])
			}
		}
	}
	return pos
}

var layoutCases = []struct {
	elems [][]string
	fixed []string
}{
	{[][]string{{"A/Ux", "B/Ux"}}, []string{"A/Ux"}},
	{[][]string{{"A/Ux", "B/Ux"}}, []string{"B/Ux"}},
	{[][]string{{"A/Ux", "A/Uz", "B/Ux", "B/Uz"}, {"B/Ux", "B/Uz", "C/Ux", "C/Uz"}}, []string{"C/Uz", "A/Ux", "A/Uz"}},
	{[][]string{{"A/Ux", "A/Uz", "A/Phiy", "B/Ux", "B/Uz", "B/Phiy"}, {"B/Ux", "B/Uy", "B/Uz", "C/Ux", "C/Uy", "C/Uz"}, {"B/Ux", "C/Ux"}}, []string{"C/Uz", "B/Uy", "A/Phiy"}},
	{[][]string{{"1/Ux", "11/Ux", "1/Uz", "11/Uz", "1/Uy", "1/Phix", "1/Phiy", "1/Phiz"}, {"a/Ux", "A/Ux", "Ä/Ux", "/Ux", " /Ux"}}, []string{"1/Phix", "/Ux", "11/Uz"}},
	{[][]string{{"N2/Phiz", "N10/Phiz"}, {"N2/Phix", "N10/Phix", "N1/Ux"}, {"Ux/Ux", "Uz/Ux"}}, []string{"N10/Phix", "N2/Phix", "Ux/Ux", "N10/Phiz"}},
}

func permute[T any](s []T, p int) []T {
	r := append([]T(nil), s...)
	n := len(r)
	switch p % 3 {
	case 1: // reversed
		for i := 0; i < n/2; i++ {
			r[i], r[n-1-i] = r[n-1-i], r[i]
		}
	case 2: // rotated
		if n > 1 {
			r = append(r[1:], r[0])
		}
	}
	return r
}

type badLayout struct {
	name  string
	elems [][]string
	fixed []string
}

// others are all degrees of freedom of a node but one.
func others(node, but string) []string {
	var r []string
	for _, d := range dofNames {
		if d != but {
			r = append(r, node+"/"+d)
		}
	}
	return r
}

// bads places an invalid support first, last and alone.
func bads(name string, elems [][]string, bad string) []badLayout {
	return []badLayout{{name, elems, []string{bad}}, {name + ", first", elems, []string{bad, elems[0][0]}}, {name + ", last", elems, []string{elems[1][1], elems[0][0], bad}}}
}

func runC08(k *Check) {
	for ci, c := range layoutCases {
		var first map[string]int
		for p := 0; p < 3; p++ {
			for _, rev := range []bool{false, true} {
				k.scenario(fmt.Sprintf("case %d, order %d, maps reversed %v", ci, p, rev), func(it *Interp) {
					it.mapReverse = rev
					var es [][]string
					for _, e := range permute(c.elems, p) {
						es = append(es, permute(e, p))
					}
					pos := k.numbering("numbering", es, permute(c.fixed, p))
					if pos == nil {
						return
					}
					if first == nil {
						first = pos
					}
					k.expect("numbering-order", "NewEqLayout", fmt.Sprint(pos) == fmt.Sprint(first), "numbering depends on the order of elements, supports or maps: %v and %v", pos, first)
				})
			}
		}
	}
	for ci, c := range layoutCases {
		k.scenario(fmt.Sprintf("case %d, elements with equal identifiers", ci), func(it *Interp) {
			it.elementID = "e"
			k.numbering("numbering", c.elems, c.fixed)
		})
	}
	bad := []badLayout{
		{"duplicate support", layoutCases[2].elems, []string{"A/Ux", "A/Uz", "A/Ux"}},
		{"duplicate support, adjacent", layoutCases[2].elems, []string{"A/Ux", "A/Ux"}},
		{"two duplicate supports", layoutCases[2].elems, []string{"A/Ux", "B/Ux", "B/Ux", "A/Ux"}},
		{"support of an unused degree of freedom", layoutCases[2].elems, []string{"A/Ux", "A/Phiy"}},
		{"support of an unknown node", layoutCases[2].elems, []string{"X/Ux", "A/Uz"}},
		{"only unknown supports", layoutCases[2].elems, []string{"X/Ux"}},
		{"more unknown supports than degrees of freedom", layoutCases[0].elems, append(append([]string{"A/Ux"}, others("X", "")...), others("Y", "")...)},
		{"supports without elements", nil, []string{"A/Ux", "B/Ux"}},
		{"duplicate unknown support", layoutCases[2].elems, []string{"X/Ux", "A/Ux", "X/Ux"}},
	}
	// numbers of unknowns and supports beyond what anybody would think of as special
	for _, size := range [][2]int{{20, 3}, {40, 30}, {300, 257}, {270, 2}, {1100, 4}, {1100, 1092}} {
		if size[0] > 1000 && size[1] < 100 && !k.thor {
			continue
		}
		for _, rev := range []bool{false, true} {
			k.scenario(fmt.Sprintf("%d unknowns, %d supports, maps reversed %v", size[0], size[1], rev), func(it *Interp) {
				it.mapReverse = rev
				it.maxStep *= 10
				sc := largeCase(size[0], size[1])
				k.numbering("numbering", [][]string{sc.keys[size[0]/3:], sc.keys[:size[0]/2], permute(sc.keys[:5], 1)}, sc.fixed)
			})
		}
		if size[0] > 1000 {
			continue
		}
		sc := largeCase(size[0], size[1])
		es := [][]string{sc.keys[:size[0]/2], sc.keys[size[0]/3:]}
		bad = append(bad,
			badLayout{fmt.Sprintf("duplicate of the first of %d supports", size[1]), es, append(sc.fixed[:size[1]:size[1]], sc.fixed[0])},
			badLayout{fmt.Sprintf("duplicate of the last of %d supports", size[1]), es, append(sc.fixed[:size[1]:size[1]], sc.fixed[size[1]-1])},
			badLayout{fmt.Sprintf("unknown support after %d others", size[1]), es, append(sc.fixed[:size[1]:size[1]], "X/Ux")},
			badLayout{fmt.Sprintf("unknown support before %d others", size[1]), es, append([]string{"X/Ux"}, sc.fixed...)})
	}
	for _, d := range dofNames {
		bad = append(bad, bads("support of unused "+d, [][]string{others("A", d), others("B", d)}, "A/"+d)...)
		bad = append(bad, bads("support of "+d+" of an unknown node", [][]string{others("A", ""), others("B", d)}, "C/"+d)...)
	}
	for _, b := range bad {
		for _, sym3 := range []string{"equal", "different", "symbolic"} {
			for _, rev := range []bool{false, true} {
				if len(b.elems) > 0 && len(b.elems[0]) > 60 && (rev || sym3 != "different") && !k.thor {
					continue
				}
				k.scenario(b.name+", "+sym3+" values", func(it *Interp) {
					it.mapReverse = rev
					u := sym("u")
					_, err := it.layoutOf(b.elems, b.fixed, func(i int) *Poly {
						switch sym3 {
						case "equal":
							return u
						case "different":
							return intPoly(int64(i))
						}
						return sym(fmt.Sprintf("u%d", i))
					})
					k.errSet("numbering-error", "NewEqLayout", b.name, err)
				})
			}
		}
	}
}

// C09 ---------------------------------------------------------------------------

func runC09(k *Check) {
	const rule = "unknown-dof"
	base := []string{"A/Ux", "A/Uz", "B/Ux", "B/Uz"}
	// nodal conditions and transforms that refer to something unknown
	type bad struct {
		name string
		mod  func(it *Interp, f fields)
	}
	bads := []bad{
		{"load on an unknown node", func(it *Interp, f fields) {
			f["Neumann"] = it.mkSlice("NodalValue", it.nodalValue("A", "Ux", sym("P")), it.nodalValue("X", "Ux", sym("P")))
		}},
		{"load on an unused degree of freedom", func(it *Interp, f fields) {
			f["Neumann"] = it.mkSlice("NodalValue", it.nodalValue("A", "Phiy", sym("P")))
		}},
		{"zero load on an unused degree of freedom", func(it *Interp, f fields) {
			f["Neumann"] = it.mkSlice("NodalValue", it.nodalValue("A", "Phiy", intPoly(0)), it.nodalValue("A", "Ux", sym("P")))
		}},
		{"prescribed value of an unknown node", func(it *Interp, f fields) {
			f["Dirichlet"] = it.mkSlice("NodalValue", it.nodalValue("X", "Ux", sym("u")))
		}},
		{"prescribed zero of an unknown degree of freedom", func(it *Interp, f fields) {
			f["Dirichlet"] = it.mkSlice("NodalValue", it.nodalValue("A", "Uy", intPoly(0)))
		}},
		{"inclined support from an unknown degree of freedom", func(it *Interp, f fields) {
			tr, _ := it.call2("NewInclinedSupport", it.idx("A", "Uy"), it.idx("A", "Ux"), num(sym("φ")))
			f["EqTransforms"] = it.mkSlice("Transformer", tr)
		}},
		{"inclined support to an unknown node", func(it *Interp, f fields) {
			tr, _ := it.call2("NewInclinedSupport", it.idx("A", "Uz"), it.idx("C", "Ux"), num(sym("φ")))
			f["EqTransforms"] = it.mkSlice("Transformer", it.stubTransform(nil, nil), tr)
		}},
	}
	good := func(it *Interp) fields {
		return fields{
			"Elements":  it.mkSlice("Element", it.stubElement("e", base, nil)),
			"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", sym("u0"))),
			"Neumann":   it.mkSlice("NodalValue", it.nodalValue("B", "Uz", sym("P0"))),
		}
	}
	solve := func(it *Interp, solver V, f fields, lay V) (V, V) {
		p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(f))
		return it.split(it.callMethod(solver, "Solve", p, lay, it.stubSolver(nil)))
	}
	// valid re-use of the layout and solver afterwards
	afterwards := func(it *Interp, s *system, solver V) {
		res, err := solve(it, solver, good(it), s.layout)
		k.errNil("lookup-isolation", "Solve", "a later valid problem", err)
		k.onSuccess(err, func() {
			for _, key := range base {
				node, d := splitKey(key)
				_, err := it.split(it.callMethod(res, "Primary", it.idx(node, d)))
				k.errNil("lookup-isolation", "Primary", "a later valid query", err)
			}
		})
	}
	for _, b := range bads {
		k.scenario(b.name, func(it *Interp) {
			s := k.newSystem(nil, base, []string{"A/Ux"})
			f := good(it)
			b.mod(it, f)
			solver := it.call1("NewLinearProblemSolver")
			_, err := solve(it, solver, f, s.layout)
			k.errSet(rule, it.methodName(solver, "Solve")+" with "+b.name, "solving", err)
			afterwards(it, s, solver)
		})
	}
	// element types: every single node or degree of freedom that is missing in the layout
	for _, kind := range []string{"truss2d", "truss3d", "frame2d", "frame3d"} {
		for miss := 0; miss < 8; miss++ {
			k.scenario(fmt.Sprintf("%s with unknown degree of freedom %d", kind, miss), func(it *Interp) {
				e := &elemSpec{kind: kind, g: it.planar("A", "B"), m: newMatParams()}
				elem, err := it.construct(e, "el")
				if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
					return
				}
				keys := it.indexKeys(elem)
				if miss >= len(keys) {
					return
				}
				var others []string
				for i, key := range keys {
					if i != miss {
						others = append(others, key)
					}
				}
				others = append(others, "Z/Ux", "Z/Uz")
				s := k.newSystem(nil, others, []string{"Z/Ux"})
				solver := it.call1("NewLinearProblemSolver")
				f := fields{
					"Elements":  it.mkSlice("Element", it.stubElement("e", others, nil), elem),
					"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("Z", "Ux", intPoly(1))),
				}
				_, err = solve(it, solver, f, s.layout)
				k.errSet(rule, it.methodName(elem, "Assemble")+" of "+kind, "solving with "+keys[miss]+" missing", err)
				f["Elements"] = it.mkSlice("Element", it.stubElement("e", others, nil))
				res, err := solve(it, solver, f, s.layout)
				k.errNil("lookup-isolation", "Solve", "a later valid problem", err)
				_ = res
			})
		}
	}
	// any number of failures counts
	for _, n := range []int{2, 3, 40, 255, 256, 257, 1100} {
		k.scenario(fmt.Sprintf("%d loads on unknown nodes", n), func(it *Interp) {
			s := k.newSystem(nil, base, []string{"A/Ux"})
			f := good(it)
			var vs []V
			for i := 0; i < n; i++ {
				vs = append(vs, it.nodalValue(fmt.Sprint("X", i%7), "Ux", intPoly(1)))
			}
			f["Neumann"] = it.mkSlice("NodalValue", vs...)
			solver := it.call1("NewLinearProblemSolver")
			_, err := solve(it, solver, f, s.layout)
			k.errSet(rule, it.methodName(solver, "Solve"), fmt.Sprintf("solving with %d loads on unknown nodes", n), err)
			afterwards(it, s, solver)
		})
	}
	// queries
	earlier := []string{"", "PrimaryAll", "ReactionAll", "PrimaryAll ReactionAll", "Primary", "Reaction", "InterpolateAll", "Dimension"}
	for _, before := range earlier {
		k.scenario("queries after "+cmp.Or(before, "nothing"), func(it *Interp) {
			s := k.newSystem(nil, base, []string{"A/Ux"})
			solver := it.call1("NewLinearProblemSolver")
			res, err := solve(it, solver, good(it), s.layout)
			k.errNil(rule, "Solve", "solving", err)
			for _, m := range strings.Fields(before) {
				switch m {
				case "Primary", "Reaction":
					for i := 0; i < 6; i++ {
						it.callMethod(res, m, it.idx("A", "Ux"))
					}
				case "InterpolateAll":
					it.callMethod(res, m, num(zeroPoly))
				default:
					it.callMethod(res, m)
				}
			}
			other, err := solve(it, it.call1("NewLinearProblemSolver"), good(it), s.layout)
			k.errNil(rule, "Solve", "solving", err)
			for _, m := range []string{"Primary", "Reaction"} {
				name := it.methodName(res, m)
				for _, q := range []string{"X/Ux", "X/Ux", "A/Uy", "A/Phiy", "/Ux", "a/Ux", "X/Ux"} {
					node, d := splitKey(q)
					_, err := it.split(it.callMethod(res, m, it.idx(node, d)))
					k.errSet(rule, name, "query of "+q, err)
					for _, v := range []V{res, other} {
						for _, m2 := range []string{"Primary", "Reaction"} {
							_, err = it.split(it.callMethod(v, m2, it.idx("B", "Uz")))
							k.errNil("lookup-isolation", name, "valid query after the failed query of "+q, err)
						}
					}
				}
				// out of range degree of freedom and arbitrary node
				_, err := it.split(it.callMethod(res, m, it.indexV(Str{"A"}, Int(200))))
				k.errSet(rule, name, "query of an undefined degree of freedom", err)
				_, err = it.split(it.callMethod(res, m, it.idx("B", "Uz")))
				k.errNil("lookup-isolation", name, "valid query", err)
				node := &SymStr{name: "node"}
				_, err = it.split(it.callMethod(res, m, it.indexV(node, it.dof("Ux"))))
				c := it.ctx()
				known := it.any(it.strEq(c, node, Str{"A"}), it.strEq(c, node, Str{"B"}))
				k.eq(rule, name, "query of an arbitrary node reports an error", c.not(isNil(c, c.restrict(err))), c.not(known))
			}
			// listing everything after failed queries
			it.split(it.callMethod(res, "Primary", it.idx("X", "Ux")))
			for _, m := range []string{"PrimaryAll", "ReactionAll"} {
				l, ok := it.ctx().restrict(it.callMethod(res, m)).(Slice)
				k.expect("lookup-isolation", it.methodName(res, m), ok && l.len == 4, "list of values after a failed query is %v", show(l))
			}
			_, err = it.split(it.callMethod(res, "Interpolate", Str{"e"}, it.fct("FctUx"), num(intPoly(0))))
			k.errNil("lookup-isolation", it.methodName(res, "Interpolate"), "interpolation after a failed query", err)
		})
	}
	// interpolating elements of another problem
	k.scenario("interpolation of an element whose degrees of freedom are unknown", func(it *Interp) {
		e := &elemSpec{kind: "frame2d", g: it.planar("A", "B"), m: newMatParams()}
		elem, err := it.construct(e, "el")
		k.errNil(rule, e.ctor(), "creating a valid element", err)
		s := k.newSystem(nil, base, []string{"A/Ux"})
		// this element assembles nothing but interpolates through the real one
		proxy := &NativeObj{name: "proxyElement", implements: stubAll}
		proxy.methods = map[string]func(it *Interp, a []V) V{
			"Indices":     func(it *Interp, a []V) V { return nil },
			"Assemble":    func(it *Interp, a []V) V { return nil },
			"ID":          func(it *Interp, a []V) V { return Str{"p"} },
			"NumNodes":    func(it *Interp, a []V) V { return Int(2) },
			"Interpolate": func(it *Interp, a []V) V { return it.callMethod(elem, "Interpolate", a...) },
		}
		f := good(it)
		f["Elements"] = it.mkSlice("Element", it.stubElement("e", base, nil), nativeIface(proxy))
		res, err := solve(it, it.call1("NewLinearProblemSolver"), f, s.layout)
		k.errNil(rule, "Solve", "solving", err)
		for _, q := range []string{"FctMy", "FctUz"} {
			alive, _ := k.try(func() {
				// trimming coefficients with an arbitrary tolerance is irrelevant here
				_, err := it.split(it.callMethod(res, "Interpolate", Str{"p"}, it.fct(q), num(intPoly(-1))))
				k.errSet(rule, it.methodName(res, "Interpolate"), "interpolation "+q, err)
			})
			k.expect(rule, it.methodName(res, "Interpolate"), alive, "interpolation panics")
			_, err = it.split(it.callMethod(res, "Interpolate", Str{"e"}, it.fct(q), num(intPoly(0))))
			k.errNil("lookup-isolation", it.methodName(res, "Interpolate"), "later valid interpolation", err)
		}
	})
}

// indexKeys reads the degrees of freedom an element reports.
func (it *Interp) indexKeys(elem V) []string {
	m := it.newMap()
	it.callMethod(elem, "Indices", m)
	names := map[int]string{}
	for _, d := range dofNames {
		names[it.prog.constInt(d)] = d
	}
	var r []string
	for _, e := range it.content(m.o).(*MapVal).ents {
		nd, ok1 := it.field(e.k, it.prog.typ("Index"), "NodalID").(Str)
		df, ok2 := it.field(e.k, it.prog.typ("Index"), "Dof").(Int)
		if !ok1 || !ok2 || !same(e.has, Bool(true)) {
			unsupported("index set with symbolic entries")
		}
		r = append(r, nd.s+"/"+names[int(df)])
	}
	return sorted(r)
}

func init() {
	register(&propSpec{id: "C08", min: 200, assume: []string{"degrees of freedom are identified by node identifier and name"},
		rule: "abstract interpretation of NewEqLayout; the equation number of every degree of freedom is recovered from the value graph of a solved probe problem: distinct, gap-free, prescribed ones first, identical for every order of elements, supports and map iteration, inverse to the order of listed results; duplicates and unused prescribed degrees of freedom must give an error",
		run:  runC08})
	register(&propSpec{id: "C09", min: 100, assume: []string{},
		rule: "abstract interpretation of Solve and all result queries with one reference to a degree of freedom outside the system (nodal load, prescribed value, inclined support, every element type and each of its degrees of freedom, query with concrete and arbitrary node identifiers): the error result must be non-nil exactly then, and later valid calls with the same layout, solver or result must not fail",
		run:  runC09})
}
