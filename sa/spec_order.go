package main

// Independence of hash map iteration order.

import (
	"fmt"
	"sort"
	"strings"
)

// orders are traversal orders; each traversal (also of the same map) may be different.
func orders(n int) map[string]func() func(n int) []int {
	ident := func(n int) []int {
		r := make([]int, n)
		for i := range r {
			r[i] = i
		}
		return r
	}
	rev := func(n int) []int {
		r := ident(n)
		for i := range r {
			r[i] = n - 1 - i
		}
		return r
	}
	rot := func(by int) func(n int) []int {
		return func(n int) []int {
			r := ident(n)
			for i := range r {
				r[i] = (i + by) % n
			}
			return r
		}
	}
	seq := func(fs ...func(n int) []int) func() func(n int) []int {
		return func() func(n int) []int {
			c := 0
			return func(n int) []int {
				c++
				return fs[(c-1)%len(fs)](n)
			}
		}
	}
	r := map[string]func() func(n int) []int{
		"backwards":                      seq(rev),
		"alternately forwards/backwards": seq(ident, rev),
		"alternately backwards/forwards": seq(rev, ident),
		"rotated":                        seq(rot(1)),
		"rotated differently":            seq(rot(1), ident, rot(2), rev),
	}
	for i := 0; i < n; i++ {
		r[fmt.Sprintf("shuffled %d", i)] = func() func(n int) []int {
			state := uint64(i)*7919 + 12345
			return func(n int) []int {
				p := ident(n)
				for j := n - 1; j > 0; j-- {
					state = state*6364136223846793005 + 1442695040888963407
					x := int((state >> 33) % uint64(j+1))
					p[j], p[x] = p[x], p[j]
				}
				return p
			}
		}
	}
	return r
}

// outcome describes everything observable about a document, per context.
func (k *Check) outcome(doc *JNode, results bool) string {
	it := k.it
	var sb strings.Builder
	note := func(format string, a ...any) { fmt.Fprintf(&sb, "%v: "+format+"\n", append([]any{it.ctx()}, a...)...) }
	k.under(Bool(true), func(V) {
		p, err := k.parse(doc)
		k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(ok V) {
			note("parsing succeeds %v", ok)
			if !bool(ok.(Bool)) {
				return
			}
			p := it.ctx().restrict(p)
			for _, f := range []string{"Nodes", "Dirichlet", "Neumann"} {
				k.under(it.problemField(p, f), func(l V) {
					var s []string
					for _, v := range it.elems(l.(Slice)) {
						s = append(s, it.deep(v, map[*Obj]bool{}))
					}
					sort.Strings(s)
					note("%v %v", f, s)
				})
			}
			pp := it.ptrTo("problem", it.prog.typ("Problem"), p)
			lay, err := it.call2("NewEqLayout", pp)
			k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(ok V) {
				note("numbering succeeds %v", ok)
				if !bool(ok.(Bool)) {
					return
				}
				strategy := it.stubSolver(func(a V, b, x Ptr) V {
					va, hb, hx := it.view(a), it.hdr(b), it.hdr(x)
					if !results {
						note("%d equations", va.r)
					}
					for i := 0; results && i < va.r; i++ {
						for j := 0; j < va.c; j++ {
							note("k%d,%d = %v", i, j, show(it.ctx().restrict(va.at(i, j))))
						}
						note("f%d = %v", i, show(it.ctx().restrict(it.matAt(hb, i, 0))))
					}
					for i := 0; i < hx.rows; i++ {
						it.matSet(hx, i, 0, num(sym(fmt.Sprint("x", i))))
					}
					return Iface{}
				})
				res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", pp, it.ctx().restrict(lay), strategy))
				k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(ok V) {
					note("solving succeeds %v", ok)
					if !bool(ok.(Bool)) || !results {
						return
					}
					res := it.ctx().restrict(res)
					for _, m := range []string{"PrimaryAll", "ReactionAll"} {
						k.under(it.callMethod(res, m), func(l V) { note("%v %v", m, it.deep(l, map[*Obj]bool{})) })
					}
					ids := []string{}
					if els := doc.at("elements"); els != nil {
						for _, e := range els.obj {
							ids = append(ids, e.key.(Str).s)
						}
					}
					for _, e := range ids {
						for _, f := range allFcts {
							ip, err := it.split(it.callMethod(res, "Interpolate", Str{e}, it.fct(f), num(ratPoly(1, 100000))))
							k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(ok V) {
								note("%v of %v succeeds %v", f, e, ok)
								s := it.field(it.ctx().restrict(ip), it.prog.typ("Interpolation"), "Piecewise")
								k.withPieces([]V{s}, func(ps [][]piece) { note("%v of %v: %v", f, e, showPieces(it.ctx(), ps[0])) })
							})
						}
					}
				})
			})
		})
	})
	return sb.String()
}

func runC22(k *Check) {
	n := 2
	if k.thor {
		n = 12
	}
	sites := map[string]int{}
	compare := func(name string, build func(it *Interp) *JNode, results bool, which map[string]func() func(n int) []int) {
		k.scenario(name, func(it *Interp) {
			k.summarise()
			doc := build(it)
			ref := k.outcome(doc, results)
			for _, o := range keysOf(which) {
				it.mapOrder = which[o]()
				it.cholCalls = 0
				got := k.outcome(doc, results)
				it.mapOrder = nil
				k.expect("iteration-order", parseFn+": "+name, got == ref, "with maps iterated %v, %v", o, firstDifference(ref, got))
			}
			for s, n := range it.mapRanges {
				sites[s] = max(sites[s], n)
			}
		})
	}
	all := orders(n)
	compare("a concrete document", func(it *Interp) *JNode { return validDoc() }, true, all)
	compare("a symbolic document", func(it *Interp) *JNode { return k.fullDoc() }, true, all)
	compare("many nodes", func(it *Interp) *JNode { return manyDoc() }, true, all)
	for _, ids := range [][]string{
		{"a", "A", "b", "B", "AA", "aa", "aA"},
		{"1", "01", "001", "10", "1.0", "+1", "0x1"},
		{"n", "n ", " n", "n\t", "", "N", "n-"},
		{"ä", "a", "Ä", "ae", "é", "e\u0301", "É"},
		{"N1", "N10", "N2", "N02", "M1", "1N", "N"},
	} {
		compare(fmt.Sprintf("nodes %q", ids), func(it *Interp) *JNode { return manyDocWith(ids...) }, true, all)
	}
	k.scenario("numbering of 1100 degrees of freedom", func(it *Interp) {
		it.maxStep *= 20
		sc := largeCase(1100, 1092)
		elems := [][]string{sc.keys[300:], sc.keys[:800]}
		ref := k.numbering("iteration-order", elems, sc.fixed)
		which := []string{"backwards"}
		if k.thor {
			which = keysOf(all)[:3]
		}
		for _, o := range which {
			it.mapOrder = all[o]()
			got := k.numbering("iteration-order", elems, sc.fixed)
			it.mapOrder = nil
			good := len(got) == len(ref)
			for key, i := range ref {
				good = good && got[key] == i
			}
			k.expect("iteration-order", "NewEqLayout", good, "with maps iterated %v, the numbers of degrees of freedom differ", o)
		}
	})
	few := map[string]func() func(n int) []int{}
	for _, o := range []string{"backwards", "rotated differently", "shuffled 0"} {
		few[o] = all[o]
	}
	ds := defects()
	for i, d := range ds {
		if !k.thor && strings.Contains(d.name, " values and ") && i%5 > 0 {
			continue
		}
		compare("invalid: "+d.name, func(it *Interp) *JNode {
			doc := k.fullDoc()
			d.mut(it, doc)
			return doc
		}, false, few)
	}
	// with several candidates for an omitted reference, none is chosen
	for refs := 0; refs < 3; refs++ {
		compare(fmt.Sprintf("several candidates for omitted references %d", refs), func(it *Interp) *JNode {
			doc := manyDoc()
			for i, e := range doc.at("elements").obj {
				if refs != 1 {
					e.val.del("material")
				}
				if refs != 0 && i%2 == 0 {
					e.val.del("cs")
				}
			}
			return doc
		}, true, few)
	}
	var l []string
	for s, n := range sites {
		l = append(l, fmt.Sprintf("%v: up to %d entries", s, n))
	}
	k.extra["map_traversals"] = sorted(l)
}

func firstDifference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "nothing"
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("%q becomes %q", x[i], o)
		}
	}
	return "there are more results"
}

// manyDoc has many entries per map and conditions in different notation.
func manyDoc() *JNode { return manyDocWith("a", "B", "10", "2", "1", "z", "N") }

func manyDocWith(ids ...string) *JNode {
	nodes, elems, dir, neu, links := jobj(), jobj(), jobj(), jobj(), jobj()
	for i, id := range ids {
		nodes.set(id, jarr(jint(4*i), jint(0), jint(0)))
	}
	for i := 0; i+1 < len(ids); i++ {
		e := jobj("kind", jstr([]string{"frame2d", "truss2d", "frame2d"}[i%3]), "nodes", jarr(jstr(ids[i]), jstr(ids[i+1])), "cs", jstr([]string{"c", "r", "k"}[i%3]), "material", jstr([]string{"m", "n"}[i%2]))
		if i%3 == 2 {
			e.set("hinges", jobj(ids[i], jarr(jstr("Phiy")), ids[i+1], jarr(jstr("Ux"))))
		}
		id := fmt.Sprint("e", i)
		elems.set(id, e)
		l := jarr(loadDoc("qx", load{typ: "linear", v0: sym(id + "p"), v1: sym(id + "q")}, nil))
		if i%3 != 1 {
			l.arr = append(l.arr, loadDoc("Fz", load{typ: "dirac", v0: sym(id + "F"), pos: intPoly(1)}, nil), loadDoc("My", load{typ: "dirac", v0: sym(id + "M"), pos: intPoly(1)}, nil))
		}
		neu.set(id, l)
	}
	for i, id := range ids {
		neu.set(id, jarr(jobj("Fx", jnum(sym("X"+id)), "Fz", jnum(sym("Z"+id))), jobj("Fz", jnum(sym("Y"+id)))))
		if i%2 == 0 {
			dir.set(id, jarr(jobj("Ux", jnum(sym("u"+id)), "Uz", jnum(sym("w"+id)))))
		} else {
			links.set(id, jarr(jobj("from", jstr("Ux"), "to", jstr("Uz"), "angle", jnum(sym("α"+id)))))
		}
	}
	pr := func(kv ...any) *JNode { return jobj(kv...) }
	return jobj("nodes", nodes, "elements", elems, "dirichlet", dir, "neumann", neu, "links", links,
		"material", jobj("m", jobj("kind", jstr("linelast"), "parameter", pr("E", jint(1), "nu", jint(2), "rho", jint(3))), "n", jobj("kind", jstr("linelast"), "parameter", pr("E", jint(4), "nu", jint(5), "rho", jint(6)))),
		"crosssection", jobj(
			"c", jobj("kind", jstr("constants"), "parameter", pr("A", jint(7), "Iyy", jint(8), "Izz", jint(9))),
			"r", jobj("kind", jstr("rectangle"), "parameter", pr("b", jint(1), "h", jint(2))),
			"k", jobj("kind", jstr("constants"), "parameter", pr("Izz", jint(10), "Iyy", jint(11), "A", jint(12), "Ixx", jint(13)))))
}

func init() {
	register(&propSpec{
		id: "C22", min: 300,
		rule:   "abstract interpretation of parsing, numbering, solving and querying, repeated with the entries of every traversed hash map in other orders (varying from traversal to traversal): decisions, numbering, linear system and all results must be identical value graphs",
		assume: []string{exact, "only traversals of hash maps are unordered (Go specification)"},
		run:    runC22,
	})
}
