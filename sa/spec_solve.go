package main

// Solving: partitioning, elimination of prescribed values, reactions, inclined supports, result queries.

import (
	"fmt"
	"sort"
)

type nodalLoad struct {
	key string
	v   *Poly
}

type support struct {
	from, to string
	angle    *Poly
}

type solveCase struct {
	keys     []string
	fixed    []string
	vals     map[string]*Poly // prescribed values, default zero
	loads    []nodalLoad
	supports []support
	elements int
	sparse   bool // for large systems
	useTr    []V  // transformers to re-use instead of creating new ones
	useBC    []V
}

type solveOut struct {
	s      *system
	res    V
	err    V
	K      [][]*Poly // global, without transforms
	f      []*Poly
	d, R   []*Poly // expected by equation number
	tr     []V
	bc     []V
	called int
	nc     int
	prob   Ptr
}

func vecMul(m [][]*Poly, v []*Poly) []*Poly {
	r := make([]*Poly, len(m))
	for i := range m {
		r[i] = zeroPoly
		for j := range v {
			if !m[i][j].isZeroSyn() && !v[j].isZeroSyn() {
				r[i] = r[i].Add(m[i][j].Mul(v[j]))
			}
		}
	}
	return r
}

func identity(n int) [][]*Poly {
	m := zeros(n, n)
	for i := range m {
		m[i][i] = intPoly(1)
	}
	return m
}

func (sc *solveCase) transformation(s *system, reverse bool) [][]*Poly {
	T := identity(s.n)
	for q := range sc.supports {
		p := sc.supports[q]
		if reverse {
			p = sc.supports[len(sc.supports)-1-q]
		}
		sn, cs := trigOf(p.angle)
		t := identity(s.n)
		i, j := s.pos[p.from], s.pos[p.to]
		t[i][i], t[i][j], t[j][i], t[j][j] = cs, sn.Neg(), sn, cs
		T = mmul(T, t)
	}
	return T
}

// solve analyses Solve for the given case. rule is used for the linear system, the results are checked by checkResult.
func (k *Check) solve(rule string, sc *solveCase, solver V, tag string) *solveOut {
	it := k.it
	o := &solveOut{tr: sc.useTr, bc: sc.useBC}
	fixed := append([]string{}, sc.fixed...)
	for _, p := range sc.supports {
		fixed = append(fixed, p.to)
	}
	s := k.newSystem(nil, sc.keys, fixed)
	o.s = s
	o.nc = len(fixed)
	n, nc := s.n, o.nc
	what := it.methodName(solver, "Solve")
	for key, p := range s.pos {
		isFixed := false
		for _, f := range fixed {
			isFixed = isFixed || f == key
		}
		k.expect("numbering", "NewEqLayout", isFixed == (p < nc), "equation %v of %v isn't in the right partition", p, key)
	}
	// elements
	o.K = zeros(n, n)
	o.f = make([]*Poly, n)
	for i := range o.f {
		o.f[i] = zeroPoly
	}
	var elems []V
	for e := 0; e < max(1, sc.elements); e++ {
		Ke := zeros(n, n)
		fe := make([]*Poly, n)
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				if sc.sparse && j-i > 1 && i != n/3 && j != n/2 && (5*i+j)%11 != 0 && (i < n-2 || j < n-2) {
					continue
				}
				Ke[i][j] = sym(fmt.Sprintf("%sk%d_%d_%d", tag, e, i, j))
				Ke[j][i] = Ke[i][j]
			}
			fe[i] = sym(fmt.Sprintf("%sf%d_%d", tag, e, i))
		}
		for i := range o.K {
			for j := range o.K[i] {
				o.K[i][j] = o.K[i][j].Add(Ke[i][j])
			}
			o.f[i] = o.f[i].Add(fe[i])
		}
		first := e == 0
		elems = append(elems, it.stubElement(fmt.Sprintf("el%d", e), sc.keys, func(_ V, kp, rp, dp Ptr) {
			kh, rh, dh := it.hdr(kp), it.hdr(rp), it.hdr(dp)
			if !k.expect(rule, what, kh.rows == n && rh.rows == n && dh.rows == n, "matrices of size %d, %d, %d for %d unknowns", kh.rows, rh.rows, dh.rows, n) {
				unsupported("wrong matrix sizes")
			}
			it.matFill(kh, func(set func(i, j int, v V)) {
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						if first {
							k.eq(rule, what, "initial stiffness", it.matAt(kh, i, j), zeroPoly)
						}
						if !Ke[i][j].isZeroSyn() {
							set(i, j, it.add(it.matAt(kh, i, j), num(Ke[i][j])))
						}
					}
				}
			})
			for i := 0; first && i < n; i++ {
				k.eq(rule, what, "initial residual", it.matAt(rh, i, 0), zeroPoly)
				k.eq(rule, what, "initial displacement", it.matAt(dh, i, 0), zeroPoly)
			}
			it.matFill(rh, func(set func(i, j int, v V)) {
				for i := 0; i < n; i++ {
					set(i, 0, it.add(it.matAt(rh, i, 0), num(fe[i])))
				}
			})
		}))
	}
	val := func(key string) *Poly {
		if v := sc.vals[key]; v != nil {
			return v
		}
		return zeroPoly
	}
	var dir, neu []V
	for _, key := range sc.fixed {
		node, d := splitKey(key)
		dir = append(dir, it.nodalValue(node, d, val(key)))
	}
	for _, l := range sc.loads {
		node, d := splitKey(l.key)
		neu = append(neu, it.nodalValue(node, d, l.v))
		o.f[s.pos[l.key]] = o.f[s.pos[l.key]].Add(l.v)
	}
	if o.tr == nil {
		for _, p := range sc.supports {
			fn, fd := splitKey(p.from)
			tn, td := splitKey(p.to)
			tr, bc := it.call2("NewInclinedSupport", it.idx(fn, fd), it.idx(tn, td), num(p.angle))
			o.tr = append(o.tr, tr)
			o.bc = append(o.bc, bc)
			k.eq(rule, "NewInclinedSupport", "prescribed value", it.field(it.ctx().restrict(bc), it.prog.typ("NodalValue"), "Value"), zeroPoly)
			k.eq(rule, "NewInclinedSupport", "prescribed index", it.field(it.ctx().restrict(bc), it.prog.typ("NodalValue"), "Index"), it.idx(tn, td))
		}
	}
	dir = append(dir, o.bc...)
	o.prob = it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
		"Elements":     it.mkSlice("Element", elems...),
		"Dirichlet":    it.mkSlice("NodalValue", dir...),
		"Neumann":      it.mkSlice("NodalValue", neu...),
		"EqTransforms": it.mkSlice("Transformer", o.tr...),
	}))
	// specification
	x := make([]*Poly, n-nc)
	for i := range x {
		x[i] = sym(fmt.Sprintf("%sx_%d", tag, i))
	}
	dp := make([]*Poly, n)
	for key, p := range s.pos {
		if p < nc {
			dp[p] = val(key)
		} else {
			dp[p] = x[p-nc]
		}
	}
	type spec struct {
		T, KT [][]*Poly
		b     []*Poly
	}
	var specs []spec
	for c := 0; c < 2 && (c == 0 || len(sc.supports) > 1); c++ {
		T := sc.transformation(s, c == 1)
		KT := mmul(transpose(T), mmul(o.K, T))
		fT := vecMul(transpose(T), o.f)
		b := make([]*Poly, n-nc)
		for i := range b {
			b[i] = fT[nc+i]
			for j := 0; j < nc; j++ {
				b[i] = b[i].Sub(KT[nc+i][j].Mul(dp[j]))
			}
		}
		specs = append(specs, spec{T, KT, b})
	}
	use := 0
	strategy := it.stubSolver(func(a V, bp, xp Ptr) V {
		o.called++
		va := it.view(a)
		hb, hx := it.hdr(bp), it.hdr(xp)
		if !k.expect(rule, what, va.r == n-nc && va.c == n-nc && hb.rows == n-nc && hx.rows == n-nc,
			"linear system of size %dx%d, %d, %d for %d free unknowns", va.r, va.c, hb.rows, hx.rows, n-nc) {
			unsupported("wrong system size")
		}
		if len(specs) == 2 {
			// composition order of transforms that share a dof is a convention
			good := true
			for i := 0; i < n-nc && good; i++ {
				for j := 0; j < n-nc && good; j++ {
					g, ok := it.ctx().restrict(va.at(i, j)).(Num)
					good = ok && k.sameNum(g.p, specs[0].KT[nc+i][nc+j])
				}
			}
			if !good {
				use = 1
			}
		}
		sp := specs[use]
		for i := 0; i < n-nc; i++ {
			for j := 0; j < n-nc; j++ {
				k.eq(rule, what, fmt.Sprintf("coefficient (%d, %d) passed to the equation solver", i, j), va.at(i, j), sp.KT[nc+i][nc+j])
			}
			k.eq(rule, what, fmt.Sprintf("right-hand side %d passed to the equation solver", i), it.matAt(hb, i, 0), sp.b[i])
		}
		for i := range x {
			it.matSet(hx, i, 0, num(x[i]))
		}
		return Iface{}
	})
	o.res, o.err = it.split(it.callMethod(solver, "Solve", o.prob, s.layout, strategy))
	k.errNil(rule, what, "solving", o.err)
	k.expect(rule, what, o.called > 0, "the equation solver isn't called")
	sp := specs[use]
	o.d = vecMul(sp.T, dp)
	Rp := vecMul(sp.KT, dp)
	fT := vecMul(transpose(sp.T), o.f)
	for i := range Rp {
		if i < nc {
			Rp[i] = Rp[i].Sub(fT[i])
		} else {
			Rp[i] = zeroPoly
		}
	}
	o.R = vecMul(sp.T, Rp)
	return o
}

func (o *solveOut) sortedKeys() []string {
	r := append([]string{}, o.s.keys...)
	sort.Strings(r)
	return r
}

// checkResult compares single queries with the specification.
func (k *Check) checkResult(rule string, o *solveOut) {
	it := k.it
	for _, key := range o.sortedKeys() {
		node, d := splitKey(key)
		for _, q := range []struct {
			m    string
			want []*Poly
		}{{"Primary", o.d}, {"Reaction", o.R}} {
			v, err := it.split(it.callMethod(o.res, q.m, it.idx(node, d)))
			k.errNil(rule, it.methodName(o.res, q.m), "query of "+key, err)
			k.eq(rule, it.methodName(o.res, q.m), q.m+" of "+key, it.field(it.ctx().restrict(v), it.prog.typ("NodalValue"), "Value"), q.want[o.s.pos[key]])
			k.eq(rule, it.methodName(o.res, q.m), "index of "+q.m, it.field(it.ctx().restrict(v), it.prog.typ("NodalValue"), "Index"), it.idx(node, d))
		}
	}
}

// solveCases for arbitrary problems without transforms.
func solveCases(thorough bool) map[string]func() *solveCase {
	all := []string{"A/Ux", "A/Uz", "B/Phiy", "B/Ux", "C/Uz", "C/Uy"}
	r := map[string]func() *solveCase{}
	sizes := []int{2, 3, 4}
	if thorough {
		sizes = append(sizes, 5, 6)
	}
	for _, n := range sizes {
		for nc := 1; nc < n; nc++ {
			keys := all[:n]
			for pick := 0; pick < 2; pick++ {
				fixed := append([]string{}, keys[:nc]...)
				if pick == 1 { // interleaved with free ones, in descending order
					fixed = nil
					for i := n - 1; i >= 0 && len(fixed) < nc; i -= 2 {
						fixed = append(fixed, keys[i])
					}
					for i := n - 2; i >= 0 && len(fixed) < nc; i -= 2 {
						fixed = append(fixed, keys[i])
					}
				}
				for _, mode := range []string{"zero", "symbolic", "one", "constant"} {
					name := fmt.Sprintf("%d unknowns, prescribed %v, %s values", n, fixed, mode)
					r[name] = func() *solveCase {
						sc := &solveCase{keys: keys, fixed: fixed, vals: map[string]*Poly{}, elements: 1 + n%2}
						for i, f := range fixed {
							switch mode {
							case "symbolic":
								sc.vals[f] = sym("u" + f)
							case "one":
								if i == len(fixed)-1 {
									sc.vals[f] = ratPoly(1, 3)
								}
							case "constant":
								sc.vals[f] = ratPoly(int64(-1-i), 7)
							}
						}
						for i, key := range keys {
							if i%2 == pick {
								sc.loads = append(sc.loads, nodalLoad{key, sym("P" + key)})
							}
						}
						sc.loads = append(sc.loads, nodalLoad{keys[n-1], sym("Q")}, nodalLoad{keys[n-1], sym("Q'")}, nodalLoad{keys[0], sym("Q0")})
						return sc
					}
				}
			}
		}
	}
	return r
}

func keysOf[T any](m map[string]T) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func runC06(k *Check) {
	cs := solveCases(k.thor)
	for _, name := range keysOf(cs) {
		k.scenario(name, func(it *Interp) {
			sc := cs[name]()
			o := k.solve("linear-system", sc, it.call1("NewLinearProblemSolver"), "")
			k.checkResult("displacements-reactions", o)
		})
	}
	// numbers of unknowns and supports beyond what anybody would think of as special
	sizes := [][2]int{{12, 3}, {12, 9}, {20, 17}, {36, 18}, {72, 4}, {140, 130}, {140, 2}}
	if k.thor {
		sizes = append(sizes, [2]int{140, 70}, [2]int{220, 200}, [2]int{300, 3})
	}
	for _, size := range sizes {
		k.scenario(fmt.Sprintf("%d unknowns, %d prescribed", size[0], size[1]), func(it *Interp) {
			sc := largeCase(size[0], size[1])
			o := k.solve("linear-system", sc, it.call1("NewLinearProblemSolver"), "")
			k.checkResult("displacements-reactions", o)
		})
	}
	for _, n := range []int{40, 150, 400} {
		k.scenario(fmt.Sprintf("%d nodal loads", n), func(it *Interp) {
			sc := largeCase(48, 5)
			sc.loads = nil
			for i := 0; i < n; i++ {
				sc.loads = append(sc.loads, nodalLoad{sc.keys[(11*i+i/48)%48], sym(fmt.Sprint("P", i))})
			}
			o := k.solve("linear-system", sc, it.call1("NewLinearProblemSolver"), "")
			k.checkResult("displacements-reactions", o)
		})
	}
	k.scenario("no loads", func(it *Interp) {
		sc := &solveCase{keys: []string{"A/Ux", "A/Uz"}, fixed: []string{"A/Uz"}}
		o := k.solve("linear-system", sc, it.call1("NewLinearProblemSolver"), "")
		k.checkResult("displacements-reactions", o)
	})
}

func freeKeys(sc *solveCase) (r []string) {
	for _, key := range sc.keys {
		fixed := false
		for _, f := range sc.fixed {
			fixed = fixed || f == key
		}
		if !fixed {
			r = append(r, key)
		}
	}
	return r
}

// largeCase has n unknowns, nc of them prescribed, in no particular order.
func largeCase(n, nc int) *solveCase {
	sc := &solveCase{vals: map[string]*Poly{}, sparse: true}
	for i := 0; i < n; i++ {
		sc.keys = append(sc.keys, fmt.Sprintf("N%d/%v", i/6, dofNames[i%6]))
	}
	for i := 0; i < nc; i++ {
		key := sc.keys[(5*i+i*i/n)%n]
		for taken := true; taken; {
			taken = false
			for q, f := range sc.fixed {
				if f == key {
					taken = true
					for p, other := range sc.keys {
						if other == sc.fixed[q] {
							key = sc.keys[(p+1)%n]
							break
						}
					}
					break
				}
			}
		}
		sc.fixed = append(sc.fixed, key)
		if i%3 != 1 {
			sc.vals[key] = sym("u" + key)
		}
	}
	for i := 0; i < n; i += 2 {
		sc.loads = append(sc.loads, nodalLoad{sc.keys[n-1-i], sym(fmt.Sprint("P", i))})
	}
	return sc
}

func runC07(k *Check) {
	type cse struct {
		name string
		sc   func() *solveCase
	}
	load := func(sc *solveCase) *solveCase {
		for _, key := range sc.keys {
			sc.loads = append(sc.loads, nodalLoad{key, sym("P" + key)})
		}
		for _, f := range sc.fixed {
			if sc.vals == nil {
				sc.vals = map[string]*Poly{}
			}
			if f != "A/Uz" {
				sc.vals[f] = sym("u" + f)
			}
		}
		return sc
	}
	xz := []string{"A/Ux", "A/Uz", "B/Ux", "B/Uz"}
	cases := []cse{
		{"single support", func() *solveCase {
			return load(&solveCase{keys: xz, fixed: []string{"A/Ux"}, supports: []support{{"B/Ux", "B/Uz", sym("φ")}}})
		}},
		{"single support, only restraint", func() *solveCase {
			return load(&solveCase{keys: xz[:3], supports: []support{{"A/Uz", "A/Ux", sym("φ")}}})
		}},
		{"swapped order", func() *solveCase {
			return load(&solveCase{keys: xz, fixed: []string{"A/Uz"}, supports: []support{{"A/Ux", "B/Ux", sym("φ")}}})
		}},
		{"two disjoint supports", func() *solveCase {
			return load(&solveCase{keys: xz, supports: []support{{"B/Uz", "B/Ux", sym("φ")}, {"A/Ux", "A/Uz", sym("ψ")}}})
		}},
		{"two supports sharing a degree of freedom", func() *solveCase {
			return load(&solveCase{keys: []string{"A/Ux", "A/Uy", "A/Uz", "B/Ux"}, supports: []support{{"A/Ux", "A/Uz", sym("φ")}, {"A/Ux", "A/Uy", sym("ψ")}}})
		}},
		{"two supports sharing a degree of freedom, with prescribed values", func() *solveCase {
			return load(&solveCase{keys: []string{"A/Ux", "A/Uy", "A/Uz", "B/Ux", "B/Uz"}, fixed: []string{"B/Ux"}, supports: []support{{"A/Ux", "A/Uz", sym("φ")}, {"A/Ux", "A/Uy", sym("ψ")}}})
		}},
		{"no support", func() *solveCase {
			return load(&solveCase{keys: xz, fixed: []string{"A/Ux"}})
		}},
	}
	if k.thor {
		cases = append(cases, cse{"three supports", func() *solveCase {
			return load(&solveCase{keys: []string{"A/Ux", "A/Uy", "A/Uz", "B/Ux", "B/Uz", "C/Ux"}, fixed: []string{"C/Ux"}, supports: []support{{"A/Ux", "A/Uz", sym("φ")}, {"A/Ux", "A/Uy", sym("ψ")}, {"B/Uz", "B/Ux", sym("χ")}}})
		}})
	}
	for _, c := range cases {
		k.scenario(c.name, func(it *Interp) {
			o := k.solve("inclined-system", c.sc(), it.call1("NewLinearProblemSolver"), "")
			k.checkResult("inclined-result", o)
		})
	}
	// the transformation itself, for either order of the linked indices and vanishing entries
	keys := []string{"A/Ux", "A/Uy", "A/Uz", "B/Ux", "B/Uz"}
	pairs := [][2]string{{"A/Ux", "A/Uz"}, {"A/Uz", "A/Ux"}, {"B/Uz", "A/Uy"}, {"A/Uy", "B/Uz"}}
	for _, fixed := range [][]string{{"A/Ux"}, {"A/Uz", "B/Uz"}} {
		for _, pair := range pairs {
			k.scenario(fmt.Sprintf("transformation of %v, fixed %v", pair, fixed), func(it *Interp) {
				k.checkTransformer("inclined-transformation", keys, fixed, pair)
			})
		}
	}
	for _, size := range [][2]int{{18, 5}, {140, 2}, {66, 40}} {
		for pi := 0; pi < 2; pi++ {
			k.scenario(fmt.Sprintf("inclined support, %d unknowns, %d prescribed, %d", size[0], size[1], pi), func(it *Interp) {
				sc := largeCase(size[0], size[1])
				free := freeKeys(sc)
				sc.supports = []support{{free[0], free[len(free)-1], sym("φ")}}
				if pi > 0 {
					sc.supports[0].from, sc.supports[0].to = free[len(free)/2], free[len(free)/2-1]
				}
				o := k.solve("inclined-system", sc, it.call1("NewLinearProblemSolver"), "")
				k.checkResult("inclined-result", o)
			})
		}
	}
	k.scenario("many inclined supports", func(it *Interp) {
		sc := largeCase(30, 4)
		free := freeKeys(sc)
		for i := 0; i+1 < len(free) && len(sc.supports) < 12; i += 2 {
			sc.supports = append(sc.supports, support{free[i], free[i+1], sym(fmt.Sprint("φ", i))})
		}
		o := k.solve("inclined-system", sc, it.call1("NewLinearProblemSolver"), "")
		k.checkResult("inclined-result", o)
	})
	for _, n := range []int{0, 1, 2, 3, 40} {
		k.scenario(fmt.Sprintf("order of %d transforms", n), func(it *Interp) { k.checkOrder("inclined-order", n) })
	}
	// the same support object in systems of the same size with other equation numbers
	for si, systems := range [][][2][]string{
		{{xz, {"B/Uz"}}, {{"0/Ux", "A/Ux", "A/Uz", "B/Uz"}, {"B/Uz"}}, {xz, {"B/Uz"}}},
		{{xz, {"B/Uz"}}, {xz, {"B/Ux"}}, {{"A/Ux", "A/Uz", "C/Ux", "C/Uz"}, {"C/Ux", "C/Uz"}}},
		{{{"0/Ux", "A/Ux", "A/Uz"}, {"0/Ux"}}, {{"A/Ux", "A/Uz", "B/Ux"}, {"B/Ux"}}, {{"A/Ux", "A/Uz", "B/Ux"}, nil}},
		{{{"A/Ux", "A/Uy", "A/Uz", "B/Ux"}, nil}, {{"A/Ux", "A/Uy", "A/Uz", "B/Ux"}, []string{"A/Uy"}}},
	} {
		k.scenario(fmt.Sprintf("re-used support, other numbering %d", si), func(it *Interp) {
			solver := it.call1("NewLinearProblemSolver")
			var tr, bc []V
			angle := sym("φ")
			for q, sys := range systems {
				sc := load(&solveCase{keys: sys[0], fixed: sys[1], supports: []support{{"A/Uz", "A/Ux", angle}}})
				sc.useTr, sc.useBC = tr, bc
				o := k.solve("inclined-system", sc, solver, fmt.Sprintf("s%d", q))
				k.checkResult("inclined-result", o)
				tr, bc = o.tr, o.bc
			}
		})
	}
	// the same support object in systems of different sizes, growing, shrinking, equal
	for _, sizes := range [][]int{{4, 6, 4}, {6, 3}, {4, 4}} {
		k.scenario(fmt.Sprintf("re-used support, sizes %v", sizes), func(it *Interp) {
			all := []string{"A/Ux", "A/Uz", "B/Ux", "B/Uz", "C/Ux", "C/Uz"}
			solver := it.call1("NewLinearProblemSolver")
			angle := sym("φ")
			var tr, bc []V
			for q, n := range sizes {
				sc := load(&solveCase{keys: all[:n], supports: []support{{"A/Uz", "A/Ux", angle}}})
				if n > 3 {
					sc.fixed = []string{"B/Uz"}
				}
				sc.useTr, sc.useBC = tr, bc
				o := k.solve("inclined-system", sc, solver, fmt.Sprintf("s%d", q))
				k.checkResult("inclined-result", o)
				tr, bc = o.tr, o.bc
			}
		})
	}
}

// checkOrder: transforms are applied once each and undone in the opposite order, however many there are.
func (k *Check) checkOrder(rule string, count int) {
	it := k.it
	keys := []string{"A/Ux", "A/Uz", "B/Ux"}
	s := k.newSystem(nil, keys, []string{"A/Uz"})
	solver := it.call1("NewLinearProblemSolver")
	what := it.methodName(solver, "Solve")
	for round := 0; round < 2; round++ {
		var pre, post []int
		var trs []V
		solved := false
		for i := 0; i < count; i++ {
			trs = append(trs, it.stubTransform(func(V, ...Ptr) {
				k.expect(rule, what, !solved, "transform %d is applied after solving", i)
				pre = append(pre, i)
			}, func(V, ...Ptr) {
				k.expect(rule, what, solved, "transform %d is undone before solving", i)
				post = append(post, i)
			}))
		}
		p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
			"Elements":     it.mkSlice("Element", it.stubElement("e", keys, nil)),
			"Dirichlet":    it.mkSlice("NodalValue", it.nodalValue("A", "Uz", zeroPoly)),
			"EqTransforms": it.mkSlice("Transformer", trs...),
		}))
		_, err := it.split(it.callMethod(solver, "Solve", p, s.layout, it.stubSolver(func(V, Ptr, Ptr) V { solved = true; return Iface{} })))
		k.errNil(rule, what, "solving", err)
		n := map[int]int{}
		for _, i := range pre {
			n[i]++
		}
		ok := len(pre) == count && len(n) == count
		k.expect(rule, what, ok, "%d transforms are applied as %v", count, pre)
		ok = len(post) == len(pre)
		for i := 0; ok && i < len(pre); i++ {
			ok = post[len(post)-1-i] == pre[i]
		}
		k.expect(rule, what, ok, "transforms are applied as %v and undone as %v", pre, post)
	}
}

// checkTransformer analyses both steps of a transformer on arbitrary matrices and vectors.
func (k *Check) checkTransformer(rule string, keys, fixed []string, pair [2]string) {
	it := k.it
	s := k.newSystem(nil, keys, fixed)
	n := s.n
	fn, fd := splitKey(pair[0])
	tn, td := splitKey(pair[1])
	sc := &solveCase{keys: keys, supports: []support{{pair[0], pair[1], sym("φ")}}}
	tr, _ := it.call2("NewInclinedSupport", it.idx(fn, fd), it.idx(tn, td), num(sc.supports[0].angle))
	T := sc.transformation(s, false)
	i0, j0 := s.pos[pair[0]], s.pos[pair[1]]
	for round, zero := range [][]int{nil, {i0}, {j0}, {i0, j0}} {
		K := zeros(n, n)
		f, d := make([]*Poly, n), make([]*Poly, n)
		kp, rp, dp := it.newSym(n), it.newVec(n), it.newVec(n)
		for i := 0; i < n; i++ {
			f[i], d[i] = sym(fmt.Sprintf("f%d_%d", round, i)), sym(fmt.Sprintf("d%d_%d", round, i))
			for _, z := range zero {
				if z == i {
					f[i], d[i] = zeroPoly, zeroPoly
				}
			}
			for j := i; j < n; j++ {
				K[i][j] = sym(fmt.Sprintf("k%d_%d_%d", round, i, j))
				if round == 3 && (i == i0 || i == j0 || j == i0 || j == j0) && i != j {
					K[i][j] = zeroPoly
				}
				K[j][i] = K[i][j]
				it.matSet(it.hdr(kp), i, j, num(K[i][j]))
			}
			it.matSet(it.hdr(rp), i, 0, num(f[i]))
			it.matSet(it.hdr(dp), i, 0, num(d[i]))
		}
		vectors := func(what string, f, d []*Poly) {
			for i := 0; i < n; i++ {
				k.eq(rule, what, fmt.Sprintf("entry %d of the residual", i), it.matAt(it.hdr(rp), i, 0), f[i])
				k.eq(rule, what, fmt.Sprintf("entry %d of the displacements", i), it.matAt(it.hdr(dp), i, 0), d[i])
			}
		}
		it.callMethod(tr, "Pre", s.layout, kp, rp, dp)
		KT := mmul(transpose(T), mmul(K, T))
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				k.eq(rule, it.methodName(tr, "Pre"), fmt.Sprintf("coefficient (%d, %d)", i, j), it.matAt(it.hdr(kp), i, j), KT[i][j])
			}
		}
		vectors(it.methodName(tr, "Pre"), vecMul(transpose(T), f), vecMul(transpose(T), d))
		for i := 0; i < n; i++ {
			it.matSet(it.hdr(rp), i, 0, num(f[i]))
			it.matSet(it.hdr(dp), i, 0, num(d[i]))
		}
		it.callMethod(tr, "Post", s.layout, rp, dp)
		vectors(it.methodName(tr, "Post"), vecMul(T, f), vecMul(T, d))
	}
}

func init() {
	register(&propSpec{id: "C06", min: 300, assume: []string{exact},
		rule: "abstract interpretation of Solve with elements that add arbitrary symmetric stiffness and load entries and an equation solver that returns arbitrary values; the matrix and right-hand side handed to the equation solver, and all queried displacements and reactions are compared entry by entry with the partitioned system, for every partition of up to 4 (thorough: 6) unknowns and zero, constant and symbolic prescribed values",
		run:  runC06})
	register(&propSpec{id: "C07", min: 300, assume: []string{exact, "the linked degrees of freedom have no other prescribed value"},
		rule: "abstract interpretation of NewInclinedSupport and Solve for arbitrary stiffness, loads and angles; the system handed to the equation solver must be the free block of TᵀKT, the results T·d' and T·r' with the rotation T of all supports, for one, several disjoint and several overlapping supports, and for re-used support objects",
		run:  runC07})
}
