package main

// Absence of panics: reachable panicking constructs in parsing, numbering, solving and querying.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calm analyses f and records every panic that is reachable from it.
func (k *Check) calm(construct, what string, f func()) bool {
	it := k.it
	base := it.st
	it.st = base.child(base.ctx)
	alive, panics := k.try(f)
	it.st = base
	k.obligation("no-panic", construct)
	for _, px := range panics {
		k.violate("no-panic", px.trace, px.pos, "%v: a panic is reachable: %v (when %v)", what, px.msg, px.ctx)
	}
	if !alive && len(panics) == 0 {
		k.violate("no-panic", construct, it.pos(), "%v: no path survives", what)
	}
	if len(panics) == 0 && alive {
		k.ok++
	}
	return alive
}

var allDofs = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix"}
var allFcts = []string{"FctUnknown", "FctUx", "FctUz", "FctUy", "FctPhiy", "FctPhiz", "FctPhix", "FctNx", "FctVz", "FctVy", "FctMy", "FctMz", "FctMx"}

// summarise replaces trimming and merging by their contracts: sequences whose pieces all have a coefficient (demanded
// here) keep this property. What they do with such sequences is analysed separately.
func (k *Check) summarise() {
	it := k.it
	t := it.prog.typ("PolySequence")
	pt := it.prog.typ("PolyPiece")
	it.summaries = map[*ssa.Function]func(args []V) V{}
	for _, m := range []string{"TrimTrailingZeros", "CompactIdentical"} {
		fn := it.prog.methodByName(t, m)
		if fn == nil {
			unsupported("%v not found (unresolved anchor)", m)
		}
		it.summaries[fn] = func(args []V) V {
			k.under(args[0], func(seq V) {
				for _, p := range it.elems(seq.(Slice)) {
					k.under(it.field(p, pt, "Coeff"), func(co V) {
						c, ok := co.(Slice)
						k.expect("no-panic", "polynomial without coefficients", ok && c.len > 0, "a polynomial without coefficients reaches %v", m)
					})
				}
			})
			if m == "CompactIdentical" {
				return args[0]
			}
			return nil
		}
	}
}

// useSeq calls every method of a sequence and its pieces.
func (k *Check) useSeq(seq V) {
	it := k.it
	t := it.prog.typ("PolySequence")
	pt := it.prog.typ("PolyPiece")
	k.under(seq, func(seq V) {
		s, ok := seq.(Slice)
		if !ok {
			unsupported("interpolation %v", show(seq))
		}
		for _, p := range it.elems(s) {
			k.under(p, func(p V) {
				if c, ok := it.ctx().restrict(it.field(p, pt, "Coeff")).(Slice); ok && c.len == 0 {
					return // can't be built through the API
				}
				pp := it.ptrTo("piece", pt, p)
				for _, x := range []V{it.field(p, pt, "X0"), it.field(p, pt, "XE"), num(sym("at")), num(intPoly(-1))} {
					it.callFn(it.prog.methodByName(types.NewPointer(pt), "Eval"), []V{pp, x}, nil, nil)
				}
				it.callFn(it.prog.methodByName(types.NewPointer(pt), "Degree"), []V{pp}, nil, nil)
			})
		}
		it.callFn(it.prog.methodByName(t, "IntervalIndex"), []V{seq, num(zeroPoly), num(sym("at"))}, nil, nil)
	})
}

// query asks a result everything.
func (k *Check) query(res V, nodes, elems []string, deep bool) {
	it := k.it
	for _, m := range []string{"Primary", "Reaction"} {
		for _, n := range append([]string{"nowhere", ""}, nodes...) {
			for _, d := range allDofs {
				it.callMethod(res, m, it.idx(n, d))
			}
			it.callMethod(res, m, it.indexV(Str{n}, Int(77)))
		}
	}
	it.callMethod(res, "Dimension")
	tols := []*Poly{ratPoly(1, 100000000)}
	if deep {
		tols = append(tols, zeroPoly, intPoly(-1), sym("tol"))
	}
	var fs []V
	for _, f := range allFcts {
		fs = append(fs, it.fct(f))
	}
	fs = append(fs, Int(200))
	for _, tol := range tols {
		for _, e := range append([]string{"nothing"}, elems...) {
			for _, f := range fs {
				ip, err := it.split(it.callMethod(res, "Interpolate", Str{e}, f, num(tol)))
				if deep {
					k.onSuccess(err, func() { k.useSeq(it.field(it.ctx().restrict(ip), it.prog.typ("Interpolation"), "Piecewise")) })
				}
			}
		}
		it.callMethod(res, "InterpolateAll", num(tol))
	}
	it.callMethod(res, "PrimaryAll")
	it.callMethod(res, "ReactionAll")
}

// pipeline numbers, solves and queries.
func (k *Check) pipeline(pp V, nodes, elems []string, deep bool) {
	it := k.it
	lay, err := it.call2("NewEqLayout", pp)
	k.onSuccess(err, func() { k.solveAndQuery(pp, it.ctx().restrict(lay), nodes, elems, deep) })
}

func (k *Check) solveAndQuery(pp, lay V, nodes, elems []string, deep bool) {
	it := k.it
	res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", pp, lay, it.call1("NewCholeskySolver")))
	k.onSuccess(err, func() {
		k.under(res, func(res V) {
			if i, ok := res.(Iface); !ok || i.typ == nil {
				k.fail("no-panic", "Solve", "neither a result nor an error")
				return
			}
			k.query(res, nodes, elems, deep)
		})
	})
}

func (k *Check) parseAll(what string, doc *JNode, deep bool) {
	it := k.it
	k.calm(parseFn, what+" in "+doc.String(), func() {
		p, err := k.parse(doc)
		k.onSuccess(err, func() {
			pp := it.ptrTo("problem", it.prog.typ("Problem"), it.ctx().restrict(p))
			k.pipeline(pp, []string{"A", "B", "C"}, []string{"AB", "CB", "diag", "BC", "AC", "second"}, deep)
		})
	})
}

func replacements() []*JNode {
	return []*JNode{jnull(), jbool(true), jint(0), jint(5), jint(-1), jnum(ratPoly(1, 3)), jstr("x"), jstr(""), jarr(), jobj(), jarr(jnull()), jobj("x", jnull()),
		jarr(jint(5)), jarr(jint(5), jint(5), jint(5)), jarr(jstr("x")), jarr(jstr("Ux"), jstr("Ux")), jobj("Ux", jint(5)), jarr(jobj("Ux", jint(5))), jobj("A", jint(1)), jarr(jarr()), jarr(jobj())}
}

// anyNumbers replaces the numbers below n by arbitrary ones.
func anyNumbers(n *JNode, name string) {
	if n.kind == "num" {
		n.v = num(sym(name))
	}
	for _, e := range n.obj {
		anyNumbers(e.val, fmt.Sprint(name, "/", show(e.key)))
	}
	for i, e := range n.arr {
		anyNumbers(e, fmt.Sprint(name, "/", i))
	}
}

func runC13(k *Check) {
	quiet := func(name string, f func(it *Interp)) {
		orders := bothOrders
		if !k.thor && !strings.HasPrefix(name, "a ") {
			orders = func(k *Check, name string, f func(it *Interp)) { k.scenario(name, f) }
		}
		orders(k, name, func(it *Interp) {
			it.anyDiv = true
			k.summarise()
			f(it)
		})
	}
	quiet("a valid document", func(it *Interp) { k.parseAll("valid", validDoc(), true) })
	quiet("documents of other kinds", func(it *Interp) {
		for _, d := range append(replacements(), &JNode{kind: "bad"}) {
			k.parseAll("document replaced", d, false)
		}
		k.calm(parseFn, "no data", func() { it.call2("ProblemFromJSON", Slice{}) })
	})
	// each value of the document replaced
	var all [][]any
	paths(validDoc(), nil, func(p []any, n *JNode) { all = append(all, p) })
	for _, p := range all {
		quiet("replaced "+generic(p), func(it *Interp) {
			for _, w := range replacements() {
				doc := validDoc()
				replace(doc, p, w)
				k.parseAll(generic(p)+" replaced", doc, false)
			}
			doc := validDoc()
			remove(doc, p)
			k.parseAll(generic(p)+" removed", doc, false)
			if doc = validDoc(); doc.at(p[:len(p)-1]...).kind == "arr" {
				a := doc.at(p[:len(p)-1]...)
				a.arr = append(a.arr, a.arr[p[len(p)-1].(int)].clone())
				k.parseAll(generic(p)+" duplicated", doc, false)
			}
		})
	}
	// unknown numbers
	for _, section := range []string{"nodes", "material", "crosssection", "dirichlet", "links", "neumann"} {
		quiet("arbitrary numbers in "+section, func(it *Interp) {
			doc := validDoc()
			anyNumbers(doc.at(section), section)
			k.parseAll("arbitrary numbers in "+section, doc, section != "nodes")
		})
	}
	quiet("a document with unknown values", func(it *Interp) { k.parseAll("symbolic", k.fullDoc(), true) })
	for _, at := range [][]any{{"elements", "AB", "kind"}, {"elements", "AB", "hinges", "B", 0}, {"elements", "diag", "nodes", 0}, {"elements", "diag", "cs"}, {"elements", "diag", "material"},
		{"links", "B", 0, "from"}, {"links", "B", 0, "to"}, {"neumann", "AB", 0, "kind"}, {"neumann", "AB", 0, "degree"}, {"neumann", "AB", 1, "kind"}, {"neumann", "AB", 1, "degree"},
		{"material", "default", "kind"}, {"crosssection", "default", "kind"}} {
		quiet("arbitrary text at "+generic(at), func(it *Interp) {
			doc := validDoc()
			replace(doc, at, jsym(&SymStr{name: "s"}))
			k.parseAll("arbitrary text at "+generic(at), doc, false)
		})
	}
	for _, at := range [][]any{{"nodes"}, {"material"}, {"crosssection"}, {"crosssection", "default", "parameter"},
		{"elements"}, {"elements", "AB", "hinges"}, {"dirichlet"}, {"dirichlet", "A", 0}, {"links"}, {"neumann"}, {"neumann", "C", 0}} {
		for i := 0; ; i++ {
			n := validDoc().at(at[:]...)
			if n.kind == "arr" || i >= len(n.obj) {
				break
			}
			quiet(fmt.Sprintf("arbitrary name %d in %v", i, generic(at)), func(it *Interp) {
				doc := validDoc()
				doc.at("elements", "AB").set("nodes", jarr(jstr("A"), jstr("B")))
				doc.at("elements", "CB").set("nodes", jarr(jstr("C"), jstr("B")))
				doc.at(at...).obj[i].key = &SymStr{name: "s"}
				k.calm(parseFn, "arbitrary name", func() {
					p, err := k.parse(doc)
					k.onSuccess(err, func() {
						pp := it.ptrTo("problem", it.prog.typ("Problem"), it.ctx().restrict(p))
						lay, err := it.call2("NewEqLayout", pp)
						k.onSuccess(err, func() {
							it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", pp, it.ctx().restrict(lay), it.call1("NewCholeskySolver"))
						})
					})
				})
			})
		}
	}
	k.degenerate()
	k.queries()
	k.values()
}

// degenerate problems through the public constructors
func (k *Check) degenerate() {
	elem := func(it *Interp, kind string, hinges []int, loads []load, coincide bool) []V {
		g := it.planar("a", "b")
		e := &elemSpec{kind: kind, g: g, m: newMatParams(), hinges: hinges}
		if coincide {
			it.store(g.n1, it.load(g.n0))
		}
		el, err := it.construct(e, "e")
		var r []V
		k.onSuccess(err, func() {
			x := it.ctx().restrict(el)
			for _, l := range loads {
				it.callMethod(x, "AddLoad", it.newLoad(l))
			}
			r = append(r, x)
		})
		return r
	}
	type dir struct {
		node, dof string
	}
	some := []dir{{"a", "Ux"}, {"a", "Uz"}, {"b", "Uz"}}
	problems := map[string]func(it *Interp, kind string) (elems, dirs, neus, trs []V){}
	dirichlet := func(it *Interp, ds ...dir) (r []V) {
		for i, d := range ds {
			r = append(r, it.nodalValue(d.node, d.dof, sym(fmt.Sprint("v", i))))
		}
		return r
	}
	problems["supported"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), dirichlet(it, some...), dirichlet(it, dir{"b", "Ux"}), nil
	}
	problems["no supports"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), nil, nil, nil
	}
	problems["no elements"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return nil, dirichlet(it, some...), nil, nil
	}
	problems["empty"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) { return nil, nil, nil, nil }
	problems["everything supported"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		var all []dir
		for _, n := range []string{"a", "b"} {
			for _, d := range allDofs[:map[string]int{"truss2d": 2, "truss3d": 3, "frame2d": 4, "frame3d": 4}[kind]] {
				if d != "Uy" || kind == "truss3d" {
					all = append(all, dir{n, d})
				}
			}
		}
		return elem(it, kind, nil, nil, false), dirichlet(it, all...), nil, nil
	}
	problems["duplicate supports"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), dirichlet(it, dir{"a", "Ux"}, dir{"a", "Ux"}), nil, nil
	}
	problems["foreign supports"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), dirichlet(it, dir{"c", "Ux"}), nil, nil
	}
	problems["more foreign supports than degrees of freedom"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		var all []dir
		for _, n := range []string{"c", "d", "e"} {
			for _, d := range allDofs {
				all = append(all, dir{n, d})
			}
		}
		return elem(it, kind, nil, nil, false), dirichlet(it, all...), nil, nil
	}
	problems["foreign loads"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), dirichlet(it, some...), dirichlet(it, dir{"c", "Ux"}, dir{"", "Phix"}), nil
	}
	problems["loads on supports"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, false), dirichlet(it, some...), dirichlet(it, some...), nil
	}
	problems["out-of-range degree of freedom"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		bad := it.mkStruct(it.prog.typ("NodalValue"), fields{"Index": it.indexV(Str{"a"}, Int(200)), "Value": num(sym("v"))})
		return elem(it, kind, nil, nil, false), append(dirichlet(it, some...), bad), []V{bad}, nil
	}
	problems["coincident nodes"] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
		return elem(it, kind, nil, nil, true), dirichlet(it, some...), nil, nil
	}
	for _, link := range [][2]dir{{{"b", "Ux"}, {"b", "Uz"}}, {{"b", "Ux"}, {"b", "Ux"}}, {{"c", "Ux"}, {"b", "Uz"}}, {{"b", "Ux"}, {"c", "Uz"}}, {{"a", "Ux"}, {"b", "Ux"}}} {
		problems[fmt.Sprintf("inclined support %v", link)] = func(it *Interp, kind string) (elems, dirs, neus, trs []V) {
			tr, bc := it.call2("NewInclinedSupport", it.idx(link[0].node, link[0].dof), it.idx(link[1].node, link[1].dof), num(sym("alpha")))
			return elem(it, kind, nil, nil, false), append(dirichlet(it, dir{"a", "Ux"}), bc), nil, []V{tr, tr}
		}
	}
	for _, kind := range []string{"truss2d", "truss3d", "frame2d", "frame3d"} {
		for _, name := range keysOf(problems) {
			k.scenario(kind+": "+name, func(it *Interp) {
				it.anyDiv = true
				k.summarise()
				k.calm(name, kind+" with "+name, func() {
					e, d, n, t := problems[name](it, kind)
					pp := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
						"Elements": it.mkSlice("Element", e...), "Dirichlet": it.mkSlice("NodalValue", d...),
						"Neumann": it.mkSlice("NodalValue", n...), "EqTransforms": it.mkSlice("Transformer", t...)}))
					k.pipeline(pp, []string{"a", "b"}, []string{"e"}, true)
				})
			})
			// layouts of other problems
			for _, other := range keysOf(problems) {
				k.scenario(fmt.Sprintf("%v: %v with the layout of %v", kind, name, other), func(it *Interp) {
					it.anyDiv = true
					k.summarise()
					k.calm(name, kind+" with "+name+" numbered like "+other, func() {
						mk := func(n string) V {
							e, d, nn, t := problems[n](it, kind)
							return it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
								"Elements": it.mkSlice("Element", e...), "Dirichlet": it.mkSlice("NodalValue", d...),
								"Neumann": it.mkSlice("NodalValue", nn...), "EqTransforms": it.mkSlice("Transformer", t...)}))
						}
						lay, err := it.call2("NewEqLayout", mk(other))
						k.onSuccess(err, func() { k.solveAndQuery(mk(name), it.ctx().restrict(lay), []string{"a", "b"}, []string{"e"}, false) })
					})
				})
			}
		}
		// loads and hinges of any kind
		for _, h := range [][]int{nil, {0}, {1}, {2}, {1, 4}, {0, 3}, {2, 5}, {1, 2, 4, 5}, {0, 1, 2, 3, 4, 5}} {
			k.scenario(fmt.Sprintf("%v: loads with hinges %v", kind, h), func(it *Interp) {
				it.anyDiv = true
				k.summarise()
				g := it.planar("a", "b")
				e := &elemSpec{kind: kind, g: g, m: newMatParams(), hinges: h}
				for _, i := range h {
					if i >= e.nloc() {
						return
					}
				}
				k.calm("loads", kind, func() {
					el, err := it.construct(e, "e")
					k.onSuccess(err, func() {
						x := it.ctx().restrict(el)
						for _, d := range append([]string{}, allDofs...) {
							for _, typ := range []string{"dirac", "const", "linear"} {
								it.callMethod(x, "AddLoad", it.newLoad(load{typ: typ, kind: d, v0: sym("v0"), v1: sym("v1"), pos: g.L.Mul(ratPoly(1, 2))}))
							}
						}
						for _, l := range []V{Iface{}, Iface{typ: types.Typ[types.Int], val: Int(5)}, Iface{typ: types.Typ[types.String], val: Str{"x"}}} {
							it.callMethod(x, "AddLoad", l)
							it.callMethod(x, "RemoveLoad", l)
						}
						pp := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
							"Elements": it.mkSlice("Element", x), "Dirichlet": it.mkSlice("NodalValue", dirichlet(it, some...)...)}))
						k.pipeline(pp, []string{"a", "b"}, []string{"e"}, true)
					})
				})
			})
		}
	}
	k.scenario("zero layout", func(it *Interp) {
		it.anyDiv = true
		k.summarise()
		k.calm("zero layout", "the zero value of EqLayout", func() {
			e, d, n, t := problems["supported"](it, "frame2d")
			pp := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
				"Elements": it.mkSlice("Element", e...), "Dirichlet": it.mkSlice("NodalValue", d...),
				"Neumann": it.mkSlice("NodalValue", n...), "EqTransforms": it.mkSlice("Transformer", t...)}))
			k.solveAndQuery(pp, it.zero(it.prog.typ("EqLayout")), []string{"a"}, []string{"e"}, false)
		})
	})
}

// queries on sequences that aren't results
func (k *Check) queries() {
	seqs := map[string]func(it *Interp) V{
		"nil":      func(it *Interp) V { return Slice{} },
		"empty":    func(it *Interp) V { return it.mkSeq() },
		"constant": func(it *Interp) V { return it.mkSeq(it.mkPiece(zeroPoly, psym("L"), sym("c"))) },
		"gap": func(it *Interp) V {
			return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), sym("c")), it.mkPiece(intPoly(2), intPoly(3), sym("c"), sym("d"), sym("e")))
		},
		"unordered": func(it *Interp) V {
			return it.mkSeq(it.mkPiece(intPoly(2), intPoly(3), sym("c")), it.mkPiece(zeroPoly, intPoly(1), sym("c"), sym("d")), it.mkPiece(intPoly(0), intPoly(0), sym("c")))
		},
		"equal": func(it *Interp) V {
			return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), sym("c")), it.mkPiece(intPoly(1), intPoly(2), sym("c")), it.mkPiece(intPoly(2), intPoly(3), sym("e")))
		},
		"arbitrary": func(it *Interp) V {
			return it.mkSeq(it.mkPiece(sym("x0"), sym("x1"), sym("c")), it.mkPiece(sym("x2"), sym("x3"), sym("d"), sym("e")))
		},
		"zeros": func(it *Interp) V {
			return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), zeroPoly, zeroPoly), it.mkPiece(intPoly(1), intPoly(2), zeroPoly))
		},
	}
	methods := func(it *Interp, s V, tol *Poly) map[string]func() {
		T := it.prog.typ("PolySequence")
		call := func(m string, a ...V) V { return it.callFn(it.prog.methodByName(T, m), append([]V{s}, a...), nil, nil) }
		return map[string]func(){
			"TrimTrailingZeros": func() { call("TrimTrailingZeros", num(tol)) },
			"CompactIdentical":  func() { call("CompactIdentical", num(tol)) },
			"IntervalIndex":     func() { call("IntervalIndex", num(zeroPoly), num(tol)) },
			"both":              func() { call("TrimTrailingZeros", num(tol)); call("CompactIdentical", num(tol)) },
		}
	}
	for _, name := range keysOf(seqs) {
		for ti, tol := range []*Poly{ratPoly(1, 1000), zeroPoly, intPoly(-1), sym("tol")} {
			for _, m := range []string{"TrimTrailingZeros", "CompactIdentical", "IntervalIndex", "both"} {
				if m == "both" && (name == "arbitrary" || ti == 3) {
					continue
				}
				k.scenario(fmt.Sprintf("sequence %v/%d: %v", name, ti, m), func(it *Interp) {
					it.anyDiv = true
					k.calm("PolySequence", name, methods(it, seqs[name](it), tol)[m])
				})
			}
		}
	}
	k.scenario("pieces", func(it *Interp) {
		it.anyDiv = true
		for n := 1; n < 6; n++ {
			var co []*Poly
			for i := 0; i < n; i++ {
				co = append(co, sym(fmt.Sprint("c", i)))
			}
			k.calm("PolyPiece", fmt.Sprintf("%d coefficients", n), func() {
				pt := it.prog.typ("PolyPiece")
				pp := it.ptrTo("piece", pt, it.mkPiece(sym("x0"), sym("xE"), co...))
				it.callFn(it.prog.methodByName(types.NewPointer(pt), "Eval"), []V{pp, num(sym("x"))}, nil, nil)
				it.callFn(it.prog.methodByName(types.NewPointer(pt), "Degree"), []V{pp}, nil, nil)
			})
		}
	})
}

// values outside of the defined ranges
func (k *Check) values() {
	k.scenario("out-of-range values", func(it *Interp) {
		for _, t := range []string{"Dof", "Fct"} {
			k.calm(t+".String", "printing", func() {
				fn := it.prog.methodByName(it.prog.typ(t), "String")
				if fn == nil {
					return
				}
				for i := 0; i < 256; i++ {
					it.callFn(fn, []V{Int(i)}, nil, nil)
				}
			})
		}
		k.calm("NewElementConcentratedLoad", "any dof", func() {
			it.call2("NewElementConcentratedLoad", Int(200), num(sym("p")), num(sym("v")))
			it.call1("NewElementConstantLoad", Int(200), num(sym("v")))
			it.call1("NewElementLinearLoad", Int(200), num(sym("v")), num(sym("w")))
		})
		k.calm("cross sections", "any parameter", func() {
			cs, err := it.call2("NewRectangularCrossSection", num(sym("b")), num(sym("h")), num(sym("r")))
			k.onSuccess(err, func() {
				for _, m := range []string{"Area", "Iyy", "Izz", "Ixx", "RollAngle"} {
					it.callMethod(it.ctx().restrict(cs), m)
				}
			})
			for _, m := range []V{Slice{}, it.newMap(), it.newMap(Str{"A"}, num(sym("a"))), it.newMap(Str{"A"}, num(sym("a")), Str{"Iyy"}, num(sym("b")), Str{"Izz"}, num(sym("c")), Str{"x"}, num(sym("d")))} {
				if _, ok := m.(Slice); ok {
					m = MapRef{}
				}
				cs, err := it.call2("NewConstantsCrossSections", m)
				k.onSuccess(err, func() {
					for _, m := range []string{"Area", "Iyy", "Izz", "Ixx", "RollAngle"} {
						it.callMethod(it.ctx().restrict(cs), m)
					}
				})
			}
		})
	})
	// elements with unusual hinges and identifiers
	for _, kind := range []string{"truss2d", "truss3d", "frame2d", "frame3d"} {
		k.scenario(kind+": unusual hinges", func(it *Interp) {
			it.anyDiv = true
			k.calm(kind, "hinges of other nodes and degrees of freedom", func() {
				g := it.planar("a", "b")
				e := &elemSpec{kind: kind, g: g, m: newMatParams()}
				T := it.prog.typ("Material")
				m := it.ptrTo("material", T, it.load(it.material(e.m)))
				one := Struct{}
				for _, h := range []V{MapRef{}, it.newMap(), it.newMap(it.idx("c", "Ux"), one), it.newMap(it.indexV(Str{"a"}, Int(99)), one), it.newMap(it.idx("a", "Uy"), one, it.idx("b", "Phix"), one)} {
					for _, id := range []string{"e", ""} {
						it.call2(e.ctor(), Str{id}, g.n0, g.n1, m, h)
						it.call2(e.ctor(), Str{id}, g.n0, g.n0, m, h)
					}
				}
			})
		})
	}
}

func init() {
	register(&propSpec{
		id: "C13", min: 1000,
		rule:   "abstract interpretation of parsing, numbering, solving (with the Cholesky solver) and all queries: every panicking construct (index, slice bound, nil dereference, failed type assertion, integer division, nil map write, matrix shape, library precondition, explicit panic or exit) that is reachable without being recovered is reported, for documents in which each value is replaced, removed or duplicated or names/numbers are arbitrary, and for degenerate problems built through the constructors",
		assume: []string{exact, "encoding/json and gonum panic exactly in the documented cases (modelled)", "arguments are non-nil and polynomials have at least one coefficient"},
		run:    runC13,
	})
}
