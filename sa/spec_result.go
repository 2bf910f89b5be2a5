package main

// Result queries, re-use, concurrency, failing equation solvers.

import (
	"fmt"
	"go/types"
	"strings"
)

// all results -----------------------------------------------------------------

func (k *Check) checkLists(rule string, o *solveOut) {
	it := k.it
	t := it.prog.typ("NodalValue")
	for _, q := range []struct {
		m    string
		want []*Poly
	}{{"PrimaryAll", o.d}, {"ReactionAll", o.R}} {
		for round := 0; round < 2; round++ {
			name := it.methodName(o.res, q.m)
			l, ok := it.ctx().restrict(it.callMethod(o.res, q.m)).(Slice)
			if !k.expect(rule, name, ok && l.len == o.s.n, "%v entries for %d degrees of freedom", l.len, o.s.n) {
				continue
			}
			seen := map[string]int{}
			for _, v := range it.elems(l) {
				keys := o.s.keys
				if key, ok := it.keyOf(it.field(v, t, "Index")); ok {
					keys = nil
					if _, known := o.s.pos[key]; known {
						keys = []string{key}
					}
				}
				for _, key := range keys {
					node, d := splitKey(key)
					if leafEqV(it.ctx(), it.field(v, t, "Index"), it.idx(node, d)) {
						seen[key]++
						k.eq(rule, name, "listed value of "+key, it.field(v, t, "Value"), q.want[o.s.pos[key]])
					}
				}
			}
			for _, key := range o.s.keys {
				k.expect(rule, name, seen[key] == 1, "%v is listed %d times", key, seen[key])
			}
		}
	}
	dim := it.callMethod(o.res, "Dimension")
	k.eq(rule, it.methodName(o.res, "Dimension"), "total number of unknowns", it.part(dim, 0), Int(o.s.n))
	k.eq(rule, it.methodName(o.res, "Dimension"), "net number of unknowns", it.part(dim, 1), Int(o.s.n-o.nc))
}

// keyOf is the key of an index that doesn't depend on anything.
func (it *Interp) keyOf(idx V) (string, bool) {
	nd, ok1 := it.field(idx, it.prog.typ("Index"), "NodalID").(Str)
	df, ok2 := it.field(idx, it.prog.typ("Index"), "Dof").(Int)
	for _, d := range dofNames {
		if ok1 && ok2 && it.prog.constInt(d) == int(df) {
			return nd.s + "/" + d, true
		}
	}
	return "", false
}

func (it *Interp) mkPiece(x0, xe *Poly, co ...*Poly) V {
	t := it.prog.typ("PolyPiece")
	var vs []V
	for _, c := range co {
		vs = append(vs, num(c))
	}
	return it.mkStruct(t, fields{"X0": num(x0), "XE": num(xe), "Coeff": it.sliceOf(types.Typ[types.Float64], vs)})
}

func (it *Interp) mkSeq(ps ...V) V { return it.sliceOf(it.prog.typ("PolyPiece"), ps) }

// interpElement is an element with fixed interpolations; note is called with the nodal values it is given.
func (it *Interp) interpElement(id string, keys []string, quantities map[string]func() V, note func(layout V, d Ptr)) V {
	e := it.stubElement(id, keys, nil).(Iface)
	n := e.val.(*NativeObj)
	byNum := map[int]func() V{}
	for f, q := range quantities {
		byNum[it.prog.constInt(f)] = q
	}
	n.methods["Interpolate"] = func(it *Interp, a []V) V {
		if note != nil {
			note(a[0], a[2].(Ptr))
		}
		w, ok := it.ctx().restrict(a[1]).(Int)
		if !ok {
			unsupported("symbolic quantity")
		}
		if q := byNum[int(w)]; q != nil {
			return q()
		}
		return Slice{}
	}
	return e
}

func runC20(k *Check) {
	const rule = "result-queries"
	cs := solveCases(k.thor)
	for _, name := range keysOf(cs) {
		if !k.thor && !strings.Contains(name, "symbolic") {
			continue
		}
		k.scenario(name, func(it *Interp) {
			o := k.solve("linear-system", cs[name](), it.call1("NewLinearProblemSolver"), "")
			k.checkLists(rule, o)
			k.checkResult(rule, o)
			k.checkLists(rule, o)
		})
	}
	for _, size := range [][2]int{{40, 7}, {150, 140}, {330, 5}} {
		k.scenario(fmt.Sprintf("%d unknowns, %d prescribed", size[0], size[1]), func(it *Interp) {
			o := k.solve("linear-system", largeCase(size[0], size[1]), it.call1("NewLinearProblemSolver"), "")
			k.checkLists(rule, o)
			k.checkResult(rule, o)
		})
	}
	k.queryTolerances(rule)
	// interpolations
	for _, order := range []int{0, 1, 2} {
		k.scenario(fmt.Sprintf("interpolations, order %d", order), func(it *Interp) {
			keys := []string{"A/Ux", "A/Uz"}
			s := k.newSystem(nil, keys, []string{"A/Ux"})
			type q struct{ id, f string }
			tag := 0
			want, pieces := map[q]*Poly{}, map[q]int{}
			mk := func(id string, fs ...string) V {
				m := map[string]func() V{}
				for _, f := range fs {
					tag++
					v := intPoly(int64(tag))
					zero := id == "zero"
					if zero {
						v = zeroPoly
					}
					want[q{id, f}] = v
					two := tag%3 == 0 && !zero // a jump in the middle
					m[f] = func() V {
						if two {
							return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), v, intPoly(3)), it.mkPiece(intPoly(1), intPoly(2), v.Neg(), intPoly(3)))
						}
						if zero {
							return it.mkSeq(it.mkPiece(zeroPoly, intPoly(2), v))
						}
						return it.mkSeq(it.mkPiece(zeroPoly, intPoly(2), v, intPoly(3)))
					}
					pieces[q{id, f}] = 1
					if two {
						pieces[q{id, f}] = 2
					}
				}
				var dRes []*Poly
				return it.interpElement(id, keys, m, func(_ V, d Ptr) {
					h := it.hdr(d)
					if dRes == nil && h.rows == 2 {
						dRes = []*Poly{sym("x")}
					}
					k.expect(rule, "Interpolate", h.rows == 2, "nodal values of length %d", h.rows)
					k.eq(rule, "Interpolate", "nodal value used for interpolation", it.matAt(h, s.pos["A/Ux"], 0), intPoly(5))
					k.eq(rule, "Interpolate", "nodal value used for interpolation", it.matAt(h, s.pos["A/Uz"], 0), intPoly(7))
				})
			}
			elems := []V{mk("all", fctNames...), mk("some", "FctNx", "FctUx"), mk("none"), mk("last", "FctMx"), mk("first", "FctUx"),
				mk("ALL", "FctUx", "FctMy"), mk("all ", "FctUx"), mk("zero", "FctNx", "FctPhiy", "FctUz")}
			ids := []string{"all", "some", "none", "last", "first", "ALL", "all ", "zero"}
			p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
				"Elements":  it.mkSlice("Element", permute(elems, order)...),
				"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", intPoly(5))),
			}))
			solver := it.call1("NewLinearProblemSolver")
			res, err := it.split(it.callMethod(solver, "Solve", p, s.layout, it.stubSolver(func(a V, b, x Ptr) V {
				it.matSet(it.hdr(x), 0, 0, num(intPoly(7)))
				return Iface{}
			})))
			k.errNil(rule, it.methodName(solver, "Solve"), "solving", err)
			tol := num(ratPoly(1, 1000))
			ti := it.prog.typ("Interpolation")
			single := func(id, f string) V {
				v, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct(f), tol))
				k.errNil(rule, it.methodName(res, "Interpolate"), "interpolation", err)
				return it.ctx().restrict(v)
			}
			check := func(where string, v V, id, f string) {
				k.eq(rule, where, "element", it.field(v, ti, "Element"), Str{id})
				k.eq(rule, where, "quantity", it.field(v, ti, "Quantity"), it.fct(f))
				ps, open := it.pieces(it.field(v, ti, "Piecewise"))
				if open != nil {
					unsupported("gated pieces")
				}
				w := want[q{id, f}]
				if w == nil {
					k.expect(rule, where, len(ps) == 0, "%v of %v has an interpolation", f, id)
					return
				}
				n := pieces[q{id, f}]
				if id == "zero" {
					k.expect(rule, where, len(ps) == 1 && k.upolyEq(ps[0].co, upoly{zeroPoly}), "%v of %v is %v", f, id, showPieces(it.ctx(), ps))
					return
				}
				ok := len(ps) == n && k.upolyEq(ps[0].co, upoly{w, intPoly(3)}) && (n < 2 || k.upolyEq(ps[1].co, upoly{w.Neg(), intPoly(3)}))
				k.expect(rule, where, ok, "%v of %v is %v", f, id, showPieces(it.ctx(), ps))
			}
			for _, id := range ids {
				for _, f := range fctNames {
					check(it.methodName(res, "Interpolate"), single(id, f), id, f)
				}
			}
			all, ok := it.ctx().restrict(it.callMethod(res, "InterpolateAll", tol)).(Slice)
			where := it.methodName(res, "InterpolateAll")
			if k.expect(rule, where, ok && all.len == len(want), "%d interpolations instead of %d", all.len, len(want)) {
				seen := map[q]int{}
				for _, v := range it.elems(all) {
					for x := range want {
						if leafEqV(it.ctx(), it.field(v, ti, "Element"), Str{x.id}) && leafEqV(it.ctx(), it.field(v, ti, "Quantity"), it.fct(x.f)) {
							seen[x]++
							check(where, v, x.id, x.f)
						}
					}
				}
				for x := range want {
					k.expect(rule, where, seen[x] == 1, "%v of %v is listed %d times", x.f, x.id, seen[x])
				}
			}
			for _, id := range []string{"unknown", "", "Al", "All", " all"} {
				_, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct("FctUx"), tol))
				k.errSet(rule, it.methodName(res, "Interpolate"), "unknown element "+id, err)
			}
			check(it.methodName(res, "Interpolate"), single("all", "FctMy"), "all", "FctMy")
		})
	}
	// the list equals single queries, whatever the number of elements and pieces
	for _, n := range []int{1, 2, 3, 5, 6, 9, 17, 45} {
		k.scenario(fmt.Sprintf("%d elements with up to %d pieces", n, n), func(it *Interp) {
			keys := []string{"A/Ux", "A/Uz"}
			s := k.newSystem(nil, keys, []string{"A/Ux"})
			tol := ratPoly(1, 1000)
			var es []V
			for e := 0; e < n; e++ {
				qs := map[string]func() V{}
				for j, f := range []string{"FctUx", "FctNx", "FctMy"} {
					if (e+j)%3 == 2 {
						continue
					}
					qs[f] = func() V {
						var ps []V
						for i := 0; i <= (e+j)%n; i++ { // steps larger and smaller than the tolerance
							step := ratPoly(int64(4*i), 1000)
							if i%4 == 3 {
								step = step.Sub(ratPoly(37, 10000))
							}
							ps = append(ps, it.mkPiece(intPoly(int64(i)), intPoly(int64(i+1)), intPoly(int64(e+1)).Add(step), intPoly(int64(j+1)), ratPoly(int64(i%3), 1500)))
						}
						return it.mkSeq(ps...)
					}
				}
				es = append(es, it.interpElement(fmt.Sprintf("e%d", e), keys, qs, nil))
			}
			p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
				"Elements":  it.mkSlice("Element", es...),
				"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", intPoly(5))),
			}))
			res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, s.layout, it.stubSolver(nil)))
			k.errNil(rule, "Solve", "solving", err)
			where := it.methodName(res, "InterpolateAll")
			all, ok := it.ctx().restrict(it.callMethod(res, "InterpolateAll", num(tol))).(Slice)
			if !k.expect(rule, where, ok, "no list of interpolations") {
				return
			}
			ti := it.prog.typ("Interpolation")
			show := func(v V) string {
				var r string
				k.withPieces([]V{it.field(it.ctx().restrict(v), ti, "Piecewise")}, func(ps [][]piece) { r += showPieces(it.ctx(), ps[0]) })
				return r
			}
			known := 0
			for e := 0; e < n; e++ {
				for j, f := range []string{"FctUx", "FctNx", "FctMy", "FctUz", "FctVz"} {
					v, err := it.split(it.callMethod(res, "Interpolate", Str{fmt.Sprintf("e%d", e)}, it.fct(f), num(tol)))
					k.errNil(rule, it.methodName(res, "Interpolate"), "interpolation", err)
					want := show(v)
					found := 0
					for _, a := range it.elems(all) {
						if leafEqV(it.ctx(), it.field(a, ti, "Element"), Str{fmt.Sprintf("e%d", e)}) && leafEqV(it.ctx(), it.field(a, ti, "Quantity"), it.fct(f)) {
							found++
							k.expect(rule, where, show(a) == want, "%v of e%d is %v, not %v", f, e, show(a), want)
						}
					}
					isKnown := j < 3 && (e+j)%3 != 2
					if isKnown {
						known++
					}
					k.expect(rule, where, (found == 1) == isKnown && found < 2, "%v of e%d is listed %d times", f, e, found)
				}
			}
			k.expect(rule, where, all.len == known, "%d interpolations instead of %d", all.len, known)
		})
	}
	// tolerances are applied
	k.scenario("interpolations are trimmed and compacted with the given tolerance", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz"}
		s := k.newSystem(nil, keys, []string{"A/Ux"})
		el := it.interpElement("e", keys, map[string]func() V{
			"FctNx": func() V {
				return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), intPoly(1), ratPoly(1, 1000)), it.mkPiece(intPoly(1), intPoly(2), intPoly(1)),
					it.mkPiece(intPoly(2), intPoly(3), intPoly(1), intPoly(1)))
			},
		}, nil)
		p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
			"Elements":  it.mkSlice("Element", el),
			"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", intPoly(5))),
		}))
		res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, s.layout, it.stubSolver(nil)))
		k.errNil(rule, "Solve", "solving", err)
		for _, c := range []struct {
			tol  *Poly
			want string
		}{{ratPoly(1, 100), "[0,2] 1 [2,3] 1 1;"}, {ratPoly(1, 100000), "[0,1] 1 1/1000 [1,2] 1 [2,3] 1 1;"}} {
			v, err := it.split(it.callMethod(res, "Interpolate", Str{"e"}, it.fct("FctNx"), num(c.tol)))
			k.errNil(rule, it.methodName(res, "Interpolate"), "interpolation", err)
			k.withPieces([]V{it.field(it.ctx().restrict(v), it.prog.typ("Interpolation"), "Piecewise")}, func(ps [][]piece) {
				got := showPieces(it.ctx(), ps[0])
				k.expect(rule, it.methodName(res, "Interpolate"), got == c.want, "interpolation with tolerance %v is %v, not %v", c.tol, got, c.want)
			})
		}
	})
}

// failing equation solvers ---------------------------------------------------------

func runC19(k *Check) {
	const rule = "solver-failure"
	for _, n := range []int{1, 2, 3} {
		k.scenario(fmt.Sprintf("Cholesky solver, %d unknowns", n), func(it *Interp) {
			ch := it.call1("NewCholeskySolver")
			what := it.methodName(ch, "SolveLinearSystem")
			for round := 0; round < 2; round++ {
				a := it.newSym(n)
				b, x := it.newVec(n), it.newVec(n)
				ah, bh := it.hdr(a), it.hdr(b)
				A := zeros(n, n)
				B := make([]*Poly, n)
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						A[i][j] = sym(fmt.Sprintf("a%d_%d_%d", round, i, j))
						A[j][i] = A[i][j]
						it.matSet(ah, i, j, num(A[i][j]))
					}
					B[i] = sym(fmt.Sprintf("b%d_%d", round, i))
					it.matSet(bh, i, 0, num(B[i]))
				}
				before := len(it.cholSolves)
				var err V
				alive, panics := k.try(func() {
					err = it.callMethod(ch, "SolveLinearSystem", it.matIface("sym", a), b, x)
				})
				for _, p := range panics {
					k.fail(rule, what, "a panic escapes: %v at %v", p.msg, p.pos)
				}
				if !k.expect(rule, what, alive, "no path returns") {
					return
				}
				nilErr := isNil(it.ctx(), it.ctx().restrict(err))
				// the library's failure modes, recovered from the analysed calls
				someSuccess := false
				k.under(nilErr, func(l V) {
					if !bool(l.(Bool)) {
						return
					}
					someSuccess = true
					c := it.ctx()
					for _, lit := range c.lits {
						if lit.a.kind == "opaque" {
							bad := strings.Contains(lit.a.name, "panics") || strings.Contains(lit.a.name, "ill-conditioned")
							k.expect(rule, what, lit.v != bad, "no error although: %v is %v", lit.a.name, lit.v)
						}
					}
					// every failure mode has been excluded
					text := c.String()
					for _, need := range []string{"succeeds", "ill-conditioned", "panics in factorisation", "panics while solving"} {
						k.expect(rule, what, strings.Contains(text, need), "no error, but the outcome '%v' of the linear algebra library is ignored", need)
					}
					found := false
					for _, r := range it.cholSolves[before:] {
						ok := len(r.x) == n
						for i := 0; i < n && ok; i++ {
							v, isNum := it.ctx().restrict(it.matAt(it.hdr(x), i, 0)).(Num)
							ok = isNum && v.p.Equal(atomPoly(r.x[i]))
							bv, isNum := it.ctx().restrict(r.b[i]).(Num)
							ok = ok && isNum && v.p != nil && bv.p.Equal(B[i])
							for j := 0; j < n && ok; j++ {
								av, isNum := it.ctx().restrict(r.a[i*n+j]).(Num)
								ok = isNum && av.p.Equal(A[i][j])
							}
						}
						found = found || ok
					}
					k.expect(rule, what, found, "the result isn't the solution of the given system")
				})
				k.expect(rule, what, someSuccess, "no system is ever solved")
				for i := 0; i < n; i++ {
					k.eq(rule, what, "right-hand side afterwards", it.matAt(bh, i, 0), B[i])
					for j := i; j < n; j++ {
						k.eq(rule, what, "coefficient matrix afterwards", it.matAt(ah, i, j), A[i][j])
					}
				}
			}
		})
	}
	k.scenario("boundary value problem with failing equation solver", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz", "B/Ux"}
		s := k.newSystem(nil, keys, []string{"A/Ux"})
		solver := it.call1("NewLinearProblemSolver")
		what := it.methodName(solver, "Solve")
		for _, fixed := range []*Poly{zeroPoly, sym("u")} {
			for _, touch := range []bool{false, true} {
				f := fields{
					"Elements":  it.mkSlice("Element", it.stubElement("e", keys, nil)),
					"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", fixed)),
				}
				p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(f))
				fails := opaqueAtom(fmt.Sprintf("equation solver fails (%v %v)", fixed, touch))
				res, err := it.split(it.callMethod(solver, "Solve", p, s.layout, it.stubSolver(func(a V, b, x Ptr) V {
					if touch {
						it.matSet(it.hdr(x), 0, 0, num(sym("garbage")))
					}
					return it.ctx().ite(it.ctx().restrict(atomBool(fails)), errValue(it, "no convergence", nil), Iface{})
				})))
				c := it.ctx()
				k.eq(rule, what, "error result is set exactly if the equation solver fails", c.not(isNil(c, c.restrict(err))), atomBool(fails))
				k.eq(rule, what, "result is missing exactly if the equation solver fails", isNil(c, c.restrict(res)), atomBool(fails))
			}
		}
	})
	k.scenario("boundary value problem with the Cholesky solver", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz", "B/Ux"}
		s := k.newSystem(nil, keys, []string{"A/Ux"})
		solver := it.call1("NewLinearProblemSolver")
		what := it.methodName(solver, "Solve")
		p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
			"Elements": it.mkSlice("Element", it.stubElement("e", keys, func(_ V, kp, rp, dp Ptr) {
				h := it.hdr(kp)
				for i := 0; i < 3; i++ {
					for j := i; j < 3; j++ {
						it.matSet(h, i, j, num(sym("k")))
					}
				}
			})),
			"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", zeroPoly)),
		}))
		res, err := it.split(it.callMethod(solver, "Solve", p, s.layout, it.call1("NewCholeskySolver")))
		seen := 0
		k.under(isNil(it.ctx(), it.ctx().restrict(err)), func(l V) {
			seen++
			c := it.ctx()
			ok := true
			for _, lit := range c.lits {
				if lit.a.kind == "opaque" {
					bad := strings.Contains(lit.a.name, "panics") || strings.Contains(lit.a.name, "ill-conditioned")
					ok = ok && lit.v != bad
				}
			}
			k.expect(rule, what, bool(l.(Bool)) == ok, "error result %v although %v", !bool(l.(Bool)), c)
			k.eq(rule, what, "presence of a result", c.not(isNil(c, c.restrict(res))), Bool(ok))
		})
		k.expect(rule, what, seen > 1, "failures of the Cholesky solver aren't distinguished")
	})
}

// re-use ----------------------------------------------------------------------------

func runC15(k *Check) {
	const rule = "reuse"
	all := []string{"A/Ux", "A/Uz", "B/Ux", "B/Uz", "C/Ux", "C/Uz"}
	type step struct {
		n, nc int
		fail  string
	}
	seqs := [][]step{
		{{3, 1, ""}, {5, 2, ""}, {2, 1, ""}, {3, 1, ""}},
		{{4, 2, ""}, {4, 2, ""}, {4, 1, ""}, {4, 3, ""}},
		{{5, 1, ""}, {5, 4, ""}, {3, 2, ""}},
		{{4, 2, "equation solver"}, {4, 2, ""}, {3, 1, "unknown dof"}, {3, 1, ""}},
		{{3, 1, ""}, {3, 3, "no free unknown"}, {3, 1, ""}, {3, 0, "no support"}, {3, 1, ""}},
	}
	if k.thor {
		seqs = append(seqs, []step{{6, 1, ""}, {2, 1, ""}, {6, 5, ""}, {6, 1, ""}, {6, 1, "equation solver"}, {2, 1, ""}},
			[]step{{2, 1, ""}, {3, 2, ""}, {4, 3, ""}, {5, 4, ""}, {6, 5, ""}, {5, 1, ""}, {4, 1, ""}, {3, 1, ""}, {2, 1, ""}})
	}
	mode := func(i int, sc *solveCase) {
		sc.vals = map[string]*Poly{}
		for j, f := range sc.fixed {
			switch i % 3 {
			case 0:
				sc.vals[f] = sym(fmt.Sprintf("u%d_%d", i, j))
			case 1:
				sc.vals[f] = ratPoly(int64(j+1), 3)
			}
		}
		for j, key := range sc.keys {
			sc.loads = append(sc.loads, nodalLoad{key, sym(fmt.Sprintf("P%d_%d", i, j))})
		}
	}
	for si, seq := range seqs {
		k.scenario(fmt.Sprintf("solver re-use %v", seq), func(it *Interp) {
			solver := it.call1("NewLinearProblemSolver")
			var outs []*solveOut
			for i, st := range seq {
				keys := all[:st.n]
				if st.fail != "" {
					f := fields{
						"Elements": it.mkSlice("Element", it.stubElement("e", keys, func(_ V, kp, rp, dp Ptr) {
							h := it.hdr(kp)
							for i := 0; i < h.rows; i++ {
								for j := i; j < h.rows; j++ {
									it.matSet(h, i, j, num(sym("garbage")))
								}
								it.matSet(it.hdr(rp), i, 0, num(sym("garbage")))
							}
						})),
					}
					var bcs []V
					for j := 0; j < st.nc; j++ {
						node, d := splitKey(keys[j])
						bcs = append(bcs, it.nodalValue(node, d, sym("garbage")))
					}
					f["Dirichlet"] = it.mkSlice("NodalValue", bcs...)
					fixed := keys[:st.nc]
					if st.fail == "unknown dof" {
						f["Neumann"] = it.mkSlice("NodalValue", it.nodalValue("X", "Ux", sym("garbage")))
					}
					lay, err := it.layoutOf([][]string{keys}, fixed, nil)
					k.errNil(rule, "NewEqLayout", "numbering", err)
					p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(f))
					res, err := it.split(it.callMethod(solver, "Solve", p, lay, it.stubSolver(func(a V, b, x Ptr) V {
						it.matSet(it.hdr(x), 0, 0, num(sym("garbage")))
						return errValue(it, "fails", nil)
					})))
					_ = res
					k.errSet(rule, it.methodName(solver, "Solve"), "failing problem ("+st.fail+")", err)
				} else {
					sc := &solveCase{keys: keys, fixed: keys[:st.nc], elements: 1}
					mode(i+si, sc)
					o := k.solve(rule, sc, solver, fmt.Sprintf("p%d", i))
					outs = append(outs, o)
				}
				// all results so far are still what they were
				for _, o := range outs {
					k.checkResult(rule, o)
					if i == len(seq)-1 {
						k.checkLists(rule, o)
					}
				}
			}
		})
	}
	// larger systems, one after the other
	for _, sizes := range [][][2]int{{{40, 7}, {14, 3}, {40, 38}, {40, 7}}, {{13, 1}, {90, 2}, {20, 10}}} {
		k.scenario(fmt.Sprintf("solver re-use, larger systems %v", sizes), func(it *Interp) {
			solver := it.call1("NewLinearProblemSolver")
			var outs []*solveOut
			for i, sz := range sizes {
				outs = append(outs, k.solve(rule, largeCase(sz[0], sz[1]), solver, fmt.Sprintf("p%d", i)))
				for _, o := range outs {
					k.checkResult(rule, o)
				}
			}
			for _, o := range outs {
				k.checkLists(rule, o)
				k.checkResult(rule, o)
			}
		})
	}
	// the same problem solved twice with the same layout, results used alternately
	k.scenario("problem re-use", func(it *Interp) {
		sc := &solveCase{keys: all[:4], fixed: []string{"A/Ux", "B/Uz"}, elements: 1}
		mode(0, sc)
		solver := it.call1("NewLinearProblemSolver")
		o1 := k.solve(rule, sc, solver, "first")
		before := it.deep(o1.prob, map[*Obj]bool{})
		var o2 V
		n := 0
		o2, err := it.split(it.callMethod(solver, "Solve", o1.prob, o1.s.layout, it.stubSolver(func(a V, b, x Ptr) V {
			n++
			for i := 0; i < o1.s.n-o1.nc; i++ {
				it.matSet(it.hdr(x), i, 0, num(sym(fmt.Sprintf("y%d", i))))
			}
			return Iface{}
		})))
		k.errNil(rule, it.methodName(solver, "Solve"), "solving again", err)
		k.checkResult(rule, o1)
		it.callMethod(o2, "PrimaryAll")
		k.checkLists(rule, o1)
		after := it.deep(o1.prob, map[*Obj]bool{})
		k.expect(rule, it.methodName(solver, "Solve"), before == after, "solving and querying modify the problem from %v to %v", before, after)
	})
	k.problemUnchanged(rule)
	// the lists of one result, queried in every order
	for _, order := range [][]string{{"PrimaryAll", "ReactionAll"}, {"ReactionAll", "PrimaryAll"}, {"PrimaryAll", "PrimaryAll", "ReactionAll"}, {"ReactionAll", "ReactionAll", "PrimaryAll"}} {
		k.scenario(fmt.Sprintf("queries %v, repeated", order), func(it *Interp) {
			sc := &solveCase{keys: all[:4], fixed: []string{"A/Uz", "B/Uz"}, elements: 1}
			mode(0, sc)
			o := k.solve(rule, sc, it.call1("NewLinearProblemSolver"), "p")
			first := map[string]string{}
			var held [][2]any
			for i := 0; i < 3*len(order); i++ {
				m := order[i%len(order)]
				l := it.callMethod(o.res, m)
				got := it.deep(l, map[*Obj]bool{})
				if w, ok := first[m]; ok {
					k.expect(rule, it.methodName(o.res, m), got == w, "call %d returns %v, previously %v", i+1, got, w)
				} else {
					first[m] = got
				}
				held = append(held, [2]any{m, l})
				for _, h := range held { // lists handed out before still say the same
					now := it.deep(h[1].(V), map[*Obj]bool{})
					k.expect(rule, it.methodName(o.res, h[0].(string)), now == first[h[0].(string)], "a list returned before becomes %v, was %v", now, first[h[0].(string)])
				}
			}
			k.checkLists(rule, o)
			k.checkResult(rule, o)
		})
	}
	// queries with different tolerances don't affect each other
	k.scenario("repeated queries with different tolerances", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz"}
		s := k.newSystem(nil, keys, []string{"A/Ux"})
		small := ratPoly(1, 1000)
		el := it.interpElement("e", keys, map[string]func() V{
			"FctNx": func() V {
				return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), small, intPoly(1)),
					it.mkPiece(intPoly(1), intPoly(2), small, intPoly(1), small),
					it.mkPiece(intPoly(2), intPoly(3), intPoly(1), small))
			},
			"FctUx": func() V { return it.mkSeq(it.mkPiece(zeroPoly, intPoly(3), small)) },
		}, nil)
		p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
			"Elements":  it.mkSlice("Element", el),
			"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", intPoly(5))),
		}))
		res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, s.layout, it.stubSolver(nil)))
		k.errNil(rule, "Solve", "solving", err)
		coarse, fine := ratPoly(1, 100), ratPoly(1, 100000)
		want := map[string]map[*Poly]string{
			"FctNx": {coarse: "[0,2] 0 1 [2,3] 1;", fine: "[0,1] 1/1000 1 [1,2] 1/1000 1 1/1000 [2,3] 1 1/1000;"},
			"FctUx": {coarse: "[0,3] 0;", fine: "[0,3] 1/1000;"},
		}
		ti := it.prog.typ("Interpolation")
		var old []V
		var oldWant []string
		check := func(where string, v V, w string) {
			k.withPieces([]V{v}, func(ps [][]piece) {
				got := showPieces(it.ctx(), ps[0])
				k.expect(rule, where, got == w, "interpolation is %v, not %v", got, w)
			})
		}
		for i, tol := range []*Poly{coarse, fine, coarse, coarse, fine, fine} {
			if i%2 == 0 {
				for _, f := range []string{"FctNx", "FctUx"} {
					v, err := it.split(it.callMethod(res, "Interpolate", Str{"e"}, it.fct(f), num(tol)))
					k.errNil(rule, it.methodName(res, "Interpolate"), "interpolation", err)
					old = append(old, it.field(it.ctx().restrict(v), ti, "Piecewise"))
					oldWant = append(oldWant, want[f][tol])
				}
			} else {
				where := it.methodName(res, "InterpolateAll")
				all, ok := it.ctx().restrict(it.callMethod(res, "InterpolateAll", num(tol))).(Slice)
				if k.expect(rule, where, ok && all.len == 2, "%d interpolations instead of 2", all.len) {
					for _, v := range it.elems(all) {
						f := "FctUx"
						if leafEqV(it.ctx(), it.field(v, ti, "Quantity"), it.fct("FctNx")) {
							f = "FctNx"
						}
						old = append(old, it.field(it.ctx().restrict(v), ti, "Piecewise"))
						oldWant = append(oldWant, want[f][tol])
					}
				}
			}
			for j := range old {
				check(it.methodName(res, "Interpolate"), old[j], oldWant[j])
			}
		}
	})
	// elements: assembling and interpolating are repeatable in any order
	for _, kind := range elementKinds {
		for _, h := range hingeSets(kind) {
			if !k.thor && len(h) > 1 {
				continue
			}
			k.scenario(fmt.Sprintf("element re-use, %s, hinges %v", kind, h), func(it *Interp) {
				v := variants[0]
				e := &elemSpec{kind: kind, hinges: h, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = []load{linearLoad("Ux"), it.newDirac("Ux", e.g.L)}
				if e.frame() {
					e.loads = append(e.loads, linearLoad("Uz"), it.newDirac("Phiy", e.g.L))
				}
				elem, err := it.construct(e, "el")
				if !k.errNil(rule, e.ctor(), "creating a valid element", err) {
					return
				}
				s := k.systemFor(elem, v)
				k.addLoads(rule, e, elem)
				rules := interpRules{equil: rule, compat: rule, pure: rule}
				k.checkAssemble(rule, e, elem, s)
				k.checkInterpolation(e, elem, s, rules)
				k.checkAssemble(rule, e, elem, s)
				k.checkInterpolation(e, elem, s, rules)
				node := it.prog.typ("Node")
				for i, p := range []Ptr{e.g.n0, e.g.n1} {
					k.eq(rule, e.kind, "node identifier", it.field(it.content(p.o), node, "ID"), Str{[]string{e.g.id0, e.g.id1}[i]})
				}
			})
		}
	}
}

// problemUnchanged: numbering, solving and querying leave the problem alone, whatever the order of its parts.
func (k *Check) problemUnchanged(rule string) {
	sets := [][]string{{"A/Ux", "A/Uz", "B/Ux", "B/Uz"}, {"B/Ux", "B/Uz", "C/Ux", "C/Phiy"}, {"A/Ux", "C/Ux"}}
	for _, ids := range [][]string{{"b", "c", "a"}, {"10", "9", "B"}, {"a", "b", "c"}} {
		for _, fixed := range [][]string{{"C/Ux", "A/Ux", "B/Uz"}, {"A/Ux", "B/Uz", "C/Ux"}, {"B/Uz"}} {
			k.scenario(fmt.Sprintf("problem unchanged, elements %v, supports %v", ids, fixed), func(it *Interp) {
				var elems, dir, neu, trs []V
				var calls []string
				stub := func(v V, name string) V {
					v.(Iface).val.(*NativeObj).name = name
					return v
				}
				for i, id := range ids {
					e := it.interpElement(id, sets[i], map[string]func() V{"FctUx": func() V { return it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), intPoly(int64(i+1)))) }}, nil)
					elems = append(elems, stub(e, "element "+id))
				}
				vals := map[string]*Poly{}
				for i, f := range fixed {
					node, d := splitKey(f)
					vals[f] = sym("u" + f)
					if i == 1 {
						vals[f] = zeroPoly
					}
					dir = append(dir, it.nodalValue(node, d, vals[f]))
				}
				for _, l := range []string{"B/Ux", "B/Ux", "A/Uz", "C/Phiy", "A/Uz", "A/Ux", "A/Ux", "B/Ux"} {
					node, d := splitKey(l)
					neu = append(neu, it.nodalValue(node, d, sym("P"+l)))
				}
				for i := 0; i < 3; i++ {
					note := func(s string) func(layout V, mats ...Ptr) {
						return func(V, ...Ptr) { calls = append(calls, fmt.Sprint(s, i)) }
					}
					trs = append(trs, stub(it.stubTransform(note("pre"), note("post")), fmt.Sprint("transform ", i)))
				}
				node := func(id string) V {
					return it.mkStruct(it.prog.typ("Node"), fields{"ID": Str{id}, "X": num(sym("X" + id))})
				}
				p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
					"Nodes":     it.mkSlice("Node", node("C"), node("A"), node("B")),
					"Elements":  it.mkSlice("Element", elems...),
					"Dirichlet": it.mkSlice("NodalValue", dir...), "Neumann": it.mkSlice("NodalValue", neu...),
					"EqTransforms": it.mkSlice("Transformer", trs...)}))
				before := it.deep(p, map[*Obj]bool{})
				same := func(what string) {
					after := it.deep(p, map[*Obj]bool{})
					k.expect(rule, what, before == after, "the problem is modified from %v to %v", before, after)
				}
				var first string
				solver := it.call1("NewLinearProblemSolver")
				for round := 0; round < 3; round++ {
					lay, err := it.call2("NewEqLayout", p)
					k.errNil(rule, "NewEqLayout", "numbering", err)
					same("NewEqLayout")
					if round == 2 {
						solver = it.call1("NewLinearProblemSolver")
					}
					calls = nil
					var out []string
					res, err := it.split(it.callMethod(solver, "Solve", p, lay, it.stubSolver(func(a V, b, x Ptr) V {
						va := it.view(a)
						for i := 0; i < va.r; i++ {
							out = append(out, "b="+show(it.ctx().restrict(it.matAt(it.hdr(b), i, 0))))
							it.matSet(it.hdr(x), i, 0, num(intPoly(int64(100+i))))
						}
						return Iface{}
					})))
					k.errNil(rule, it.methodName(solver, "Solve"), "solving", err)
					same(it.methodName(solver, "Solve"))
					for _, m := range []string{"PrimaryAll", "ReactionAll"} {
						out = append(out, m+"="+it.deep(it.callMethod(res, m), map[*Obj]bool{}))
						same(it.methodName(res, m))
					}
					for i, id := range ids {
						v, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct("FctUx"), num(ratPoly(1, 1000))))
						k.errNil(rule, it.methodName(res, "Interpolate"), "interpolation", err)
						got := it.deep(v, map[*Obj]bool{})
						k.withPieces([]V{it.field(it.ctx().restrict(v), it.prog.typ("Interpolation"), "Piecewise")}, func(ps [][]piece) {
							want := fmt.Sprintf("[0,1] %d;", i+1)
							k.expect(rule, it.methodName(res, "Interpolate"), showPieces(it.ctx(), ps[0]) == want, "interpolation of %v is %v", id, showPieces(it.ctx(), ps[0]))
						})
						out = append(out, got)
						same(it.methodName(res, "Interpolate"))
					}
					out = append(out, it.deep(it.callMethod(res, "InterpolateAll", num(ratPoly(1, 1000))), map[*Obj]bool{}))
					same(it.methodName(res, "InterpolateAll"))
					for _, key := range []string{"A/Ux", "B/Phiy"} {
						node, d := splitKey(key)
						for _, m := range []string{"Primary", "Reaction"} {
							it.split(it.callMethod(res, m, it.idx(node, d)))
							same(it.methodName(res, m))
						}
					}
					out = append(out, calls...)
					got := strings.Join(out, "\n")
					if round == 0 {
						first = got
					} else {
						k.expect(rule, it.methodName(solver, "Solve"), got == first, "solving the same problem again differs: %v", firstDifference(first, got))
					}
				}
			})
		}
	}
}

// deep is a textual picture of everything exported reachable from a problem.
func (it *Interp) deep(v V, seen map[*Obj]bool) string {
	v = it.ctx().restrict(v)
	switch x := v.(type) {
	case Ptr:
		if x.o == nil {
			return "nil"
		}
		if seen[x.o] {
			return "…"
		}
		seen[x.o] = true
		return "&" + it.deep(it.getPath(it.content(x.o), splitPath(x.path)), seen)
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%v)", x.typ, it.deep(x.val, seen))
	case Slice:
		if x.o == nil {
			return "[]"
		}
		s := "["
		for _, e := range it.elems(x) {
			s += it.deep(e, seen) + " "
		}
		return s + "]"
	case Struct:
		s := "{"
		for _, f := range x.f {
			s += it.deep(f, seen) + " "
		}
		return s + "}"
	case *NativeObj:
		return x.name
	}
	return show(v)
}

// concurrency -----------------------------------------------------------------------

func (k *Check) disjoint(rule, what string, a, b *access) {
	k.obligation(rule, what)
	n := 0
	report := func(o *Obj, x, y *access) {
		n++
		k.violate(rule, what, x.where[o], "%v (%v) is written here and used by the other, independent operation at %v", o.name, o.typ, y.where[o])
	}
	for o := range a.writes {
		if b.reads[o] || b.writes[o] {
			report(o, a, b)
		}
	}
	for o := range b.writes {
		if a.reads[o] && !a.writes[o] {
			report(o, b, a)
		}
	}
	if n == 0 {
		k.ok++
	}
}

func runC16(k *Check) {
	const rule = "shared-state"
	// 1. No mutable package-level state, no goroutines, no process-wide settings.
	k.scenario("source scan", func(it *Interp) { k.scanGlobals("global-state") })
	// 2. Effects of independent operations on the abstract heap are disjoint.
	k.scenario("independent problems, one layout", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz", "A/Phiy", "B/Ux", "B/Uz", "B/Phiy"}
		fixed := []string{"A/Ux", "A/Uz", "A/Phiy"}
		lay, err := it.layoutOf([][]string{keys}, fixed, nil)
		k.errNil(rule, "NewEqLayout", "numbering", err)
		op := func(tag string, bad bool) func() {
			g := it.planarTagged("A", "B")
			e := &elemSpec{kind: "frame2d", g: g, m: newMatParams(), hinges: []int{2}}
			elem, err := it.construct(e, "el")
			k.errNil(rule, e.ctor(), "creating a valid element", err)
			it.callMethod(elem, "AddLoad", it.newLoad(linearLoad("Uz")))
			tr, bc := it.call2("NewInclinedSupport", it.idx("B", "Ux"), it.idx("B", "Uz"), num(sym("φ"+tag)))
			_ = bc
			var bcs, neu []V
			for _, f := range fixed {
				node, d := splitKey(f)
				bcs = append(bcs, it.nodalValue(node, d, ratPoly(1, 2)))
			}
			neu = append(neu, it.nodalValue("B", "Ux", sym("P"+tag)))
			if bad {
				neu = append(neu, it.nodalValue("X", "Ux", sym("P"+tag)))
			}
			p := it.ptrTo("problem "+tag, it.prog.typ("Problem"), it.problem(fields{
				"Elements": it.mkSlice("Element", elem), "Dirichlet": it.mkSlice("NodalValue", bcs...),
				"Neumann": it.mkSlice("NodalValue", neu...), "EqTransforms": it.mkSlice("Transformer", tr),
			}))
			return func() {
				solver := it.call1("NewLinearProblemSolver")
				res, err := it.split(it.callMethod(solver, "Solve", p, lay, it.stubSolver(nil)))
				if bad {
					k.errSet(rule, "Solve", "invalid problem", err)
					return
				}
				k.errNil(rule, "Solve", "valid problem", err)
				for _, q := range []string{"B/Ux", "X/Ux", "A/Uz"} {
					node, d := splitKey(q)
					for _, m := range []string{"Primary", "Reaction"} {
						it.callMethod(res, m, it.idx(node, d))
					}
				}
				it.callMethod(res, "PrimaryAll")
				it.callMethod(res, "ReactionAll")
				it.callMethod(res, "Dimension")
				it.callMethod(res, "Interpolate", Str{"nope"}, it.fct("FctMy"), num(intPoly(0)))
				d := it.newVec(6)
				for _, f := range fctNames {
					it.callMethod(elem, "Interpolate", lay, it.fct(f), d)
				}
				it.callMethod(elem, "Indices", it.newMap())
			}
		}
		o1, o2, o3, o4 := op("1", false), op("2", false), op("3", true), op("4", false)
		a1 := it.recording(o1)
		a2 := it.recording(o2)
		a3 := it.recording(o3)
		a4 := it.recording(o4)
		for i, p := range [][2]*access{{a1, a2}, {a1, a3}, {a3, a4}} {
			k.disjoint(rule, fmt.Sprintf("solving independent problems with copies of one layout (%d)", i), p[0], p[1])
		}
	})
	k.scenario("queries of independent results", func(it *Interp) {
		keys := []string{"A/Ux", "A/Uz"}
		s := k.newSystem(nil, keys, []string{"A/Ux"})
		mk := func() V {
			p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
				"Elements":  it.mkSlice("Element", it.stubElement("e", keys, nil)),
				"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", zeroPoly)),
			}))
			res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, s.layout, it.stubSolver(nil)))
			k.errNil(rule, "Solve", "valid problem", err)
			return res
		}
		r1, r2 := mk(), mk()
		use := func(r V) *access {
			return it.recording(func() {
				for _, q := range []string{"A/Ux", "X/Ux", "A/Phiy"} {
					node, d := splitKey(q)
					it.callMethod(r, "Primary", it.idx(node, d))
					it.callMethod(r, "Reaction", it.idx(node, d))
				}
				it.callMethod(r, "PrimaryAll")
				it.callMethod(r, "ReactionAll")
				it.callMethod(r, "Interpolate", Str{"e"}, it.fct("FctUx"), num(zeroPoly))
				it.callMethod(r, "InterpolateAll", num(zeroPoly))
			})
		}
		k.disjoint(rule, "queries of two results of one layout", use(r1), use(r2))
	})
	k.scenario("parsing", func(it *Interp) {
		parse := func() *access {
			d := &JData{n: validDoc()}
			return it.recording(func() { it.call2("ProblemFromJSON", d) })
		}
		a, b := parse(), parse()
		k.disjoint(rule, "parsing two documents", a, b)
		elems := func() *access {
			return it.recording(func() {
				cs, _ := it.call2("NewRectangularCrossSection", num(psym("b")), num(psym("h")), num(zeroPoly))
				it.callMethod(it.ctx().restrict(cs), "Ixx")
				it.call2("NewConstantsCrossSections", it.newMap(Str{"A"}, num(intPoly(1)), Str{"Iyy"}, num(intPoly(1)), Str{"Izz"}, num(intPoly(1))))
				it.layoutOf([][]string{{"A/Ux"}}, []string{"X/Ux", "X/Ux"}, nil)
			})
		}
		a, b = elems(), elems()
		k.disjoint(rule, "constructing objects", a, b)
	})
}

func (it *Interp) planarTagged(id0, id1 string) *geometry { return it.planar(id0, id1) }

func init() {
	register(&propSpec{id: "C20", min: 200, assume: []string{exact, "element identifiers are unique"},
		rule: "abstract interpretation of all result queries after solving arbitrary systems: lists contain every degree of freedom once with the value graph of the single query and of the solved system, dimensions are exact, and the list of all interpolations equals the single queries for every element and quantity",
		run:  runC20})
	register(&propSpec{id: "C19", min: 50, assume: []string{"gonum's Cholesky reports failures by its boolean and error results or by a panic"},
		rule: "abstract interpretation of SolveLinearSystem and Solve with every outcome of the linear algebra library (factorisation fails, panics in factorisation or solution, ill-conditioned, success) as an uninterpreted condition; the error result must be non-nil in every context except success, where the solution must stem from a solve of exactly the given matrix and right-hand side",
		run:  runC19})
	register(&propSpec{id: "C15", min: 500, assume: []string{exact},
		rule: "abstract interpretation of sequences of Solve calls on one solver (growing, shrinking, equal sizes, failing calls in between) and of repeated Assemble/Interpolate calls; the value graphs of every later answer and of every earlier result must be those of a fresh solver, and the problem's object graph must be unchanged",
		run:  runC15})
	register(&propSpec{id: "C16", min: 50, assume: []string{"the Go standard library and gonum functions called are safe for concurrent use"},
		rule: "effect analysis: all functions are scanned for writes to (or escapes of) package-level variables, goroutines and process-wide settings; the sets of abstract heap objects read and written by solving, querying and parsing independent problems (sharing one layout) must not conflict",
		run:  runC16})
}
