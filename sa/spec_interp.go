package main

// Specification of element interpolations: equilibrium, compatibility, tiling.

import (
	"fmt"
	"strings"
)

type interpRules struct {
	hinge, equil, compat, tiles, unknown, pure string
	std                                        bool // compare standard parts, i.e. up to the positional tolerance
}

// std drops infinitesimals.
func std(p *Poly) *Poly {
	m, _ := splitTiny(p)
	return m
}

// standard drops infinitesimals from positions and coefficients.
func standard(ps []piece) (r []piece) {
	for _, p := range ps {
		q := piece{std(p.x0), std(p.xe), make(upoly, len(p.co))}
		for i, c := range p.co {
			q.co[i] = std(c)
		}
		r = append(r, q)
	}
	return r
}

type piece struct {
	x0, xe *Poly
	co     upoly
}

var fctNames = []string{"FctUx", "FctUz", "FctUy", "FctPhiy", "FctPhiz", "FctPhix", "FctNx", "FctVz", "FctVy", "FctMy", "FctMz", "FctMx"}

func (e *elemSpec) knows(f string) bool {
	switch f {
	case "FctUx", "FctNx":
		return true
	case "FctUz", "FctPhiy", "FctVz", "FctMy":
		return e.frame()
	}
	return false
}

// pieces reads a sequence; open is a gated value that has to be resolved first, if there is any.
func (it *Interp) pieces(v V) (ps []piece, open V) {
	r := it.ctx().restrict(v)
	if _, ok := r.(*Ite); ok {
		return nil, r
	}
	s, ok := r.(Slice)
	if !ok {
		unsupported("interpolation is %v", show(r))
	}
	t := it.prog.typ("PolyPiece")
	nums := func(v V) (*Poly, V) {
		v = it.ctx().restrict(v)
		if _, ok := v.(*Ite); ok {
			return nil, v
		}
		n, ok := v.(Num)
		if !ok {
			unsupported("coefficient is %v", show(v))
		}
		return n.p, nil
	}
	if s.o == nil {
		return nil, nil
	}
	for _, el := range it.elems(s) {
		el = it.ctx().restrict(el)
		if _, ok := el.(*Ite); ok {
			return nil, el
		}
		var p piece
		var o V
		if p.x0, o = nums(it.field(el, t, "X0")); o != nil {
			return nil, o
		}
		if p.xe, o = nums(it.field(el, t, "XE")); o != nil {
			return nil, o
		}
		cs := it.ctx().restrict(it.field(el, t, "Coeff"))
		if _, ok := cs.(*Ite); ok {
			return nil, cs
		}
		if c := cs.(Slice); c.o != nil {
			for _, x := range it.elems(c) {
				q, o := nums(x)
				if o != nil {
					return nil, o
				}
				p.co = append(p.co, q)
			}
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// withPieces runs f with all sequences fully resolved, once per context.
func (k *Check) withPieces(vs []V, f func(ps [][]piece)) {
	ps := make([][]piece, len(vs))
	for i, v := range vs {
		p, open := k.it.pieces(v)
		if open != nil {
			k.under(open, func(V) { k.withPieces(vs, f) })
			return
		}
		ps[i] = p
	}
	f(ps)
}

func (it *Interp) simp(p *Poly) *Poly { return it.ctx().applyEqs(p) }

func (k *Check) sameNum(a, b *Poly) bool { return numEq(k.it.ctx(), a, b) }

// upolyEq compares two polynomials in x coefficient by coefficient.
func (k *Check) upolyEq(a, b upoly) bool {
	d := a.add(b.scale(intPoly(-1)))
	for _, c := range d {
		if !k.sameNum(c, zeroPoly) {
			return false
		}
	}
	return true
}

func (k *Check) checkTiles(rule, what string, ps []piece, L *Poly) bool {
	if !k.expect(rule, what, len(ps) > 0, "no polynomial pieces") {
		return false
	}
	ok := k.eq(rule, what, "start of the first piece", ps[0].x0, zeroPoly)
	ok = k.eq(rule, what, "end of the last piece", ps[len(ps)-1].xe, L) && ok
	for i, p := range ps {
		if i > 0 {
			ok = k.eq(rule, what, "start of a piece (end of its predecessor)", p.x0, ps[i-1].xe) && ok
		}
		sg, known := k.it.ctx().sign(p.xe.Sub(p.x0))
		ok = k.expect(rule, what, known && sg > 0, "piece [%v, %v] has no positive length", p.x0, p.xe) && ok
		ok = k.expect(rule, what, len(p.co) > 0, "piece without coefficients") && ok
	}
	return ok
}

// breakpoints returns the inner bounds of all sequences in ascending order without duplicates.
func (k *Check) breakpoints(seqs ...[]piece) []*Poly {
	var xs []*Poly
	add := func(x *Poly) {
		for i, y := range xs {
			if k.sameNum(x, y) {
				return
			}
			s, known := k.it.ctx().sign(x.Sub(y))
			if !known {
				unsupported("order of %v and %v is unknown", x, y)
			}
			if s < 0 {
				xs = append(xs[:i], append([]*Poly{x}, xs[i:]...)...)
				return
			}
		}
		xs = append(xs, x)
	}
	for _, s := range seqs {
		for _, p := range s {
			add(p.x0)
			add(p.xe)
		}
	}
	return xs
}

// on returns the polynomial of the piece that covers [a, b].
func (k *Check) on(ps []piece, a, b *Poly) upoly {
	le := func(x, y *Poly) bool {
		if k.sameNum(x, y) {
			return true
		}
		s, known := k.it.ctx().sign(y.Sub(x))
		if !known {
			unsupported("order of %v and %v is unknown", x, y)
		}
		return s > 0
	}
	for _, p := range ps {
		if le(p.x0, a) && le(b, p.xe) {
			return p.co
		}
	}
	return nil
}

// field checks f' = rhs on every part and the given jumps at positions (−Σ load).
func (k *Check) checkField(rule, what string, f []piece, dist func(a, b *Poly) upoly, jumps map[*Poly]*Poly, L *Poly, extra ...[]piece) {
	xs := k.breakpoints(append([][]piece{f}, extra...)...)
	var prev upoly
	jumpAt := func(x *Poly) *Poly {
		s := zeroPoly
		for p, v := range jumps {
			if k.sameNum(p, x) {
				s = s.Add(v)
			}
		}
		return s
	}
	for p := range jumps {
		found := false
		for _, x := range xs {
			found = found || k.sameNum(x, p)
		}
		if !found && !k.sameNum(jumpAt(p), zeroPoly) {
			k.fail(rule, what, "no piece begins at %v, where a concentrated load acts", p)
		}
	}
	for i := 0; i+1 < len(xs); i++ {
		co := k.on(f, xs[i], xs[i+1])
		if !k.expect(rule, what, co != nil, "no value in [%v, %v]", xs[i], xs[i+1]) {
			return
		}
		rhs := dist(xs[i], xs[i+1])
		k.expect(rule, what, k.upolyEq(co.deriv(), rhs), "derivative of %v is %v, must be %v in [%v, %v]", showU(co), showU(co.deriv()), showU(rhs), xs[i], xs[i+1])
		if prev != nil {
			k.eq(rule, what, fmt.Sprintf("jump at %v", xs[i]), co.at(xs[i]).Sub(prev.at(xs[i])), jumpAt(xs[i]))
		}
		prev = co
	}
}

func showU(u upoly) string {
	var s []string
	for i, c := range u {
		s = append(s, fmt.Sprintf("(%v)x^%d", c, i))
	}
	return strings.Join(s, "+")
}

func showPieces(c *Ctx, ps []piece) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprintf("[%v,%v]", c.applyEqs(p.x0), c.applyEqs(p.xe)))
		for _, q := range p.co {
			s = append(s, c.applyEqs(q).String())
		}
	}
	return strings.Join(s, " ") + ";"
}

func (e *elemSpec) distributed(kind string) upoly {
	q := upoly{zeroPoly}
	for _, l := range e.loads {
		if l.kind == kind && l.typ != "dirac" {
			q = q.add(l.q(e.g.L))
		}
	}
	return q
}

func (e *elemSpec) concentrated(kind string) map[*Poly]*Poly {
	r := map[*Poly]*Poly{}
	for _, l := range e.loads {
		if l.kind == kind && l.typ == "dirac" {
			pos := *l.pos // distinct key per load
			r[&pos] = l.v0.Neg()
		}
	}
	return r
}

func atPos(k *Check, m map[*Poly]*Poly, x *Poly) *Poly {
	s := zeroPoly
	for p, v := range m {
		if k.sameNum(p, x) {
			s = s.Add(v)
		}
	}
	return s
}

// checkInterpolation analyses Interpolate for arbitrary nodal values.
func (k *Check) checkInterpolation(e *elemSpec, elem V, s *system, r interpRules) {
	it := k.it
	dp, dv := s.vec("u")
	what := func(f string) string { return it.methodName(elem, "Interpolate") + " " + f + " of " + e.kind }
	get := func(f string) V { return it.callMethod(elem, "Interpolate", s.layout, it.fct(f), dp) }

	var known []string
	for _, f := range fctNames {
		if e.knows(f) {
			known = append(known, f)
		}
	}
	if r.unknown != "" {
		for _, f := range append(append([]string{}, fctNames...), "FctUnknown") {
			if e.knows(f) {
				continue
			}
			k.eq(r.unknown, what(f), "interpolation of an unknown quantity is nil", isNil(it.ctx(), it.ctx().restrict(get(f))), Bool(true))
		}
	}
	vals := map[string]V{}
	var seqs []V
	for _, f := range known {
		vals[f] = get(f)
		seqs = append(seqs, vals[f])
	}
	if r.pure != "" {
		// again in reverse order: every answer is the same, and earlier ones don't change
		before := map[string]string{}
		k.withPieces(seqs, func(ps [][]piece) {
			for i, f := range known {
				before[f] += showPieces(it.ctx(), ps[i])
			}
		})
		after := make([]V, len(known))
		for i := len(known) - 1; i >= 0; i-- {
			after[i] = get(known[i])
		}
		got, old := map[string]string{}, map[string]string{}
		k.withPieces(after, func(ps [][]piece) {
			for i, f := range known {
				got[f] += showPieces(it.ctx(), ps[i])
			}
		})
		k.withPieces(seqs, func(ps [][]piece) {
			for i, f := range known {
				old[f] += showPieces(it.ctx(), ps[i])
			}
		})
		for _, f := range known {
			k.expect(r.pure, what(f), got[f] == before[f], "a second query gives %v, not %v", got[f], before[f])
			k.expect(r.pure, what(f), old[f] == before[f], "an earlier result changes to %v from %v", old[f], before[f])
		}
		for i, p := range dv {
			k.eq(r.pure, what(""), "nodal values after interpolation", it.matAt(it.hdr(dp), i, 0), p)
		}
	}
	// local nodal values and end forces
	if r.std {
		old := e.loads
		defer func() { e.loads = old }()
		e.loads = nil
		for _, l := range old {
			if l.pos != nil {
				l.pos = std(l.pos)
			}
			e.loads = append(e.loads, l)
		}
	}
	kl, fl, ok := condense(e.localStiffness(), e.localLoads(), e.hinges)
	if !ok {
		return
	}
	T := e.T()
	keys := e.globalKeys()
	ul := make([]*Poly, e.nloc())
	S := make([]*Poly, e.nloc())
	for i := range ul {
		ul[i] = zeroPoly
		for j, key := range keys {
			ul[i] = ul[i].Add(T[i][j].Mul(dv[s.pos[key]]))
		}
	}
	for i := range S {
		S[i] = fl[i].Neg()
		for j := range ul {
			S[i] = S[i].Add(kl[i][j].Mul(ul[j]))
		}
	}
	hinged := map[int]bool{}
	for _, h := range e.hinges {
		hinged[h] = true
	}
	n := e.nloc() / 2
	L := e.g.L
	k.withPieces(seqs, func(ps [][]piece) {
		sq := map[string][]piece{}
		for i, f := range known {
			if r.std {
				ps[i] = standard(ps[i])
			}
			sq[f] = ps[i]
			rule := r.tiles
			if rule == "" {
				rule = r.equil
			}
			if rule == "" {
				rule = r.compat
			}
			if rule == "" {
				rule = r.hinge
			}
			if !k.checkTiles(rule, what(f), ps[i], L) {
				return
			}
		}
		// end values of a force: dof index at start, loads of that kind
		ends := func(f string, dof int, kind string) {
			p := sq[f]
			c := e.concentrated(kind)
			for end := 0; end < 2; end++ {
				rule := r.equil
				i := dof + end*n
				if rule == "" && hinged[i] {
					rule = r.hinge
				}
				if rule == "" {
					continue
				}
				if end == 0 {
					k.eq(rule, what(f), "value at the start", p[0].co.at(zeroPoly), S[i].Neg().Add(atPos(k, c, zeroPoly)))
				} else {
					k.eq(rule, what(f), "value at the end", p[len(p)-1].co.at(L), S[i].Sub(atPos(k, c, L)))
				}
			}
		}
		ends("FctNx", 0, "Ux")
		if e.frame() {
			ends("FctVz", 1, "Uz")
			ends("FctMy", 2, "Phiy")
		}
		if r.equil != "" {
			inner := func(kind string) map[*Poly]*Poly {
				m := e.concentrated(kind)
				for p := range m {
					if k.sameNum(p, zeroPoly) || k.sameNum(p, L) {
						delete(m, p)
					}
				}
				return m
			}
			minus := func(u upoly) func(a, b *Poly) upoly {
				return func(a, b *Poly) upoly { return u.scale(intPoly(-1)) }
			}
			k.checkField(r.equil, what("FctNx"), sq["FctNx"], minus(e.distributed("Ux")), inner("Ux"), L)
			if e.frame() {
				k.checkField(r.equil, what("FctVz"), sq["FctVz"], minus(e.distributed("Uz")), inner("Uz"), L)
				k.checkField(r.equil, what("FctMy"), sq["FctMy"], func(a, b *Poly) upoly { return k.on(sq["FctVz"], a, b) }, inner("Phiy"), L, sq["FctVz"])
			}
		}
		if r.compat != "" {
			kin := func(f string, dof int) {
				p := sq[f]
				if !hinged[dof] {
					k.eq(r.compat, what(f), "value at the start", p[0].co.at(zeroPoly), ul[dof])
				}
				if !hinged[dof+n] {
					k.eq(r.compat, what(f), "value at the end", p[len(p)-1].co.at(L), ul[dof+n])
				}
			}
			law := func(f, g string, factor *Poly) {
				k.checkField(r.compat, what(f), sq[f], func(a, b *Poly) upoly { return k.on(sq[g], a, b).scale(factor) }, nil, L, sq[g])
			}
			kin("FctUx", 0)
			law("FctUx", "FctNx", e.m.E.Mul(e.m.A).Pow(-1))
			if e.frame() {
				kin("FctUz", 1)
				kin("FctPhiy", 2)
				law("FctPhiy", "FctMy", e.m.E.Mul(e.m.Iyy).Pow(-1))
				law("FctUz", "FctPhiy", intPoly(-1))
			}
		}
	})
}

// hingeSets that the given kind must accept.
func hingeSets(kind string) [][]int {
	n := 2
	if kind == "frame2d" {
		n = 6
	}
	var r [][]int
	for _, h := range subsetsOf(n, n) {
		if mustAccept(&elemSpec{kind: kind, hinges: h}) {
			r = append(r, h)
		}
	}
	return r
}

// interpLoads are sets of loads for interpolations, with ordered positions.
func interpLoads(e *elemSpec) map[string][]load {
	L := e.g.L
	a := psym("α")
	b := a.Add(psym("β")) // a < b < 1
	facts.positive = append(facts.positive, intPoly(1).Sub(b), intPoly(1).Sub(a))
	d := func(kind string, at *Poly, v string) load {
		return load{typ: "dirac", kind: kind, pos: at.Mul(L), v0: sym(v)}
	}
	r := map[string][]load{
		"none":          nil,
		"constant Ux":   {constLoad("Ux")},
		"linear Ux":     {linearLoad("Ux")},
		"dirac Ux":      {d("Ux", a, "F")},
		"two diracs Ux": {d("Ux", b, "F1"), d("Ux", a, "F0")},
		"coinciding Ux": {d("Ux", a, "F1"), linearLoad("Ux"), d("Ux", a, "F0")},
		"dirac Ux at 0": {d("Ux", zeroPoly, "F")},
		"dirac Ux at L": {d("Ux", intPoly(1), "F"), constLoad("Ux")},
	}
	if e.frame() {
		r["constant Uz"] = []load{constLoad("Uz")}
		r["linear Uz"] = []load{linearLoad("Uz")}
		r["dirac Uz"] = []load{d("Uz", a, "F")}
		r["dirac Phiy"] = []load{d("Phiy", a, "M")}
		r["dirac Uz and Phiy"] = []load{d("Uz", b, "F"), d("Phiy", a, "M"), linearLoad("Uz")}
		r["coinciding Uz and Phiy"] = []load{d("Uz", a, "F"), d("Phiy", a, "M"), d("Ux", a, "F2")}
		r["dirac Uz at 0"] = []load{d("Uz", zeroPoly, "F")}
		r["dirac Uz at L"] = []load{d("Uz", intPoly(1), "F"), d("Uz", a, "F1")}
		r["dirac Phiy at 0"] = []load{d("Phiy", zeroPoly, "M"), d("Phiy", b, "M1")}
		r["dirac Phiy at L"] = []load{d("Phiy", intPoly(1), "M")}
		r["mixed"] = []load{d("Phiy", b, "M"), constLoad("Uz"), linearLoad("Uz"), d("Uz", a, "F"), linearLoad("Ux"), d("Ux", b, "F2")}
	}
	for kind, l := range repeatedLoads(e, a, b) {
		r["repeated "+kind] = l
	}
	return r
}

// repeatedLoads combine loads of the same kind at the same position or of the same or opposite value.
func repeatedLoads(e *elemSpec, a, b *Poly) map[string][]load {
	kinds := []string{"Ux"}
	if e.frame() {
		kinds = []string{"Ux", "Uz", "Phiy"}
	}
	r := map[string][]load{}
	for _, kind := range kinds {
		d := func(at *Poly, v *Poly) load { return load{typ: "dirac", kind: kind, pos: at.Mul(e.g.L), v0: v} }
		f, g := sym("F"), sym("G")
		one := intPoly(1)
		r[kind] = []load{d(a, f), d(a, g), d(a, f)}
		r[kind+" in between"] = []load{d(a, f), d(b, g), d(a, g)}
		r[kind+", opposite"] = []load{d(a, f), d(b, f.Neg()), d(b, f)}
		r[kind+" at ends"] = []load{d(zeroPoly, f), d(zeroPoly, g), d(one, f), d(one, g)}
		if kind == "Phiy" {
			continue
		}
		c := func(v *Poly) load { return load{typ: "const", kind: kind, v0: v} }
		l := func(v, w *Poly) load { return load{typ: "linear", kind: kind, v0: v, v1: w} }
		r[kind+", constant"] = []load{c(f), c(g), c(f), l(f, f)}
		r[kind+", linear"] = []load{l(f, g), l(f, zeroPoly), l(f, g), l(zeroPoly, g)}
		r[kind+", linear and opposite"] = []load{l(f, f.Neg()), c(f), c(f.Neg()), l(g.Neg(), zeroPoly)}
	}
	return r
}

// manyLoads are n loads of all kinds, in the order of neither position nor kind, at distinct places.
func manyLoads(e *elemSpec, n int) (r []load) {
	kinds := []string{"Ux"}
	if e.frame() {
		kinds = []string{"Uz", "Ux", "Phiy"}
	}
	for i := 0; i < n; i++ {
		kind := kinds[i%len(kinds)]
		at := e.g.L.Mul(ratPoly(int64((7*i)%n+1), int64(n+1)))
		name := fmt.Sprint(i)
		switch {
		case kind == "Phiy" || i%4 < 2:
			r = append(r, load{typ: "dirac", kind: kind, pos: at, v0: sym("F" + name)})
		case i%4 == 2:
			r = append(r, load{typ: "const", kind: kind, v0: sym("q" + name)})
		default:
			r = append(r, load{typ: "linear", kind: kind, v0: sym("q" + name), v1: sym("p" + name)})
		}
	}
	return r
}

// manyScenarios: numbers of loads beyond what anybody would think of as special.
func (k *Check) manyScenarios(rules interpRules) {
	ns := []int{10, 20}
	if k.thor {
		ns = []int{5, 9, 17, 33, 50}
	}
	for _, kind := range elementKinds {
		for _, n := range ns {
			k.scenario(fmt.Sprintf("%s, %d loads", kind, n), func(it *Interp) {
				v := variants[n%len(variants)]
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = manyLoads(e, n)
				elem, err := it.construct(e, "el")
				if !k.errNil("construct", e.ctor(), "creating a valid element", err) {
					return
				}
				s := k.systemFor(elem, v)
				k.addLoads("construct", e, elem)
				k.checkInterpolation(e, elem, s, rules)
			})
		}
	}
}

// nearLoads have positions that differ by less than the tolerance of the library.
func nearLoads(e *elemSpec) map[string][]load {
	L := e.g.L
	a := psym("α")
	facts.positive = append(facts.positive, intPoly(1).Sub(a))
	d := func(kind string, at *Poly, v string) load {
		return load{typ: "dirac", kind: kind, pos: at, v0: sym(v)}
	}
	eps := atomPoly(epsAtom).Mul(ratPoly(1, 2))
	in := a.Mul(L)
	r := map[string][]load{
		"almost coinciding Ux": {d("Ux", in.Add(eps), "F1"), d("Ux", in, "F0")},
		"dirac Ux almost at 0": {d("Ux", eps, "F")},
		"dirac Ux almost at L": {d("Ux", L.Sub(eps), "F"), linearLoad("Ux")},
		"dirac Ux beyond L":    {d("Ux", L.Add(eps), "F"), constLoad("Ux")},
	}
	if e.frame() {
		r["almost coinciding Uz and Phiy"] = []load{d("Uz", in, "F"), d("Phiy", in.Add(eps), "M"), linearLoad("Uz")}
		r["almost coinciding Phiy and Uz"] = []load{d("Phiy", in, "M"), d("Uz", in.Add(eps), "F")}
		r["dirac Uz almost at 0"] = []load{d("Uz", eps, "F"), d("Uz", in, "F1")}
		r["dirac Uz almost at L"] = []load{d("Uz", L.Sub(eps), "F"), d("Phiy", in, "M")}
		r["dirac Phiy almost at 0"] = []load{d("Phiy", eps, "M")}
		r["dirac Phiy almost at L"] = []load{d("Phiy", L.Sub(eps), "M"), constLoad("Uz")}
		r["dirac Uz beyond L"] = []load{d("Uz", L.Add(eps), "F")}
	}
	return r
}

func (k *Check) nearScenarios(rules interpRules) {
	rules.std = true
	for _, kind := range elementKinds {
		var names []string
		k.scenario(kind+" near load sets", func(it *Interp) {
			for n := range nearLoads(&elemSpec{kind: kind, g: it.geom(kind, "A", "B")}) {
				names = append(names, n)
			}
		})
		for _, name := range sorted(names) {
			k.scenario(fmt.Sprintf("%s, load %s", kind, name), func(it *Interp) {
				v := variants[0]
				e := &elemSpec{kind: kind, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
				e.loads = nearLoads(e)[name]
				elem, err := it.construct(e, "el")
				if !k.errNil("construct", e.ctor(), "creating a valid element", err) {
					return
				}
				s := k.systemFor(elem, v)
				k.addLoads("construct", e, elem)
				k.checkInterpolation(e, elem, s, rules)
			})
		}
	}
}

func (k *Check) interpScenarios(rules interpRules) {
	for _, kind := range elementKinds {
		k.scenario(kind+", special directions and numberings", func(it *Interp) {
			dirs := [][3]int64{{1, 0, 0}, {-1, 0, 0}, {0, 0, 1}, {0, 0, -1}}
			if kind == "truss3d" {
				dirs = append(dirs, [3]int64{0, 1, 0}, [3]int64{0, -1, 0})
			}
			for i, d := range dirs {
				v := variants[i%len(variants)]
				g := axisParallel(it, v.id0, v.id1, d)
				e := &elemSpec{kind: kind, g: g, m: newMatParams(), loads: []load{linearLoad("Ux"), it.newDirac("Ux", g.L)}}
				if e.frame() {
					e.loads = append(e.loads[:1], linearLoad("Uz"), it.newDirac("Phiy", g.L))
				}
				elem, err := it.construct(e, "el")
				if !k.errNil("construct", e.ctor(), "creating a valid element", err) {
					return
				}
				k.addLoads("construct", e, elem)
				k.checkInterpolation(e, elem, k.systemFor(elem, v), rules)
			}
		})
		var names []string
		k.scenario(kind+" load sets", func(it *Interp) {
			for n := range interpLoads(&elemSpec{kind: kind, g: it.geom(kind, "A", "B")}) {
				names = append(names, n)
			}
		})
		hs := hingeSets(kind)
		for _, name := range sorted(names) {
			for hi, h := range hs {
				// with hinges, a representative set of loads is enough for the quick check
				if hi > 0 && !k.thor && name != "mixed" && name != "two diracs Ux" {
					continue
				}
				if hi > 0 && !k.thor && kind == "frame2d" && name != "mixed" {
					continue
				}
				k.scenario(fmt.Sprintf("%s, hinges %v, load %s", kind, h, name), func(it *Interp) {
					v := variants[hi%2]
					e := &elemSpec{kind: kind, hinges: h, g: it.geom(kind, v.id0, v.id1), m: newMatParams()}
					e.loads = interpLoads(e)[name]
					elem, err := it.construct(e, "el")
					if !k.errNil("construct", e.ctor(), "creating a valid element", err) {
						return
					}
					s := k.systemFor(elem, v)
					k.addLoads("construct", e, elem)
					k.checkInterpolation(e, elem, s, rules)
				})
			}
		}
	}
}

func init() {
	register(&propSpec{id: "C04", min: 300, assume: []string{exact},
		rule: "abstract interpretation of constructors, AddLoad and Interpolate for arbitrary nodal values, directions and load positions (ordered symbolically); every piece of N, V, M must satisfy dN/dx=-q, dV/dx=-q, dM/dx=V, every jump must equal the concentrated load, the end values the element's own nodal forces (condensed stiffness times nodal values minus work-equivalent loads)",
		run: func(k *Check) {
			k.interpScenarios(interpRules{equil: "equilibrium"})
			k.nearScenarios(interpRules{equil: "equilibrium"})
			k.manyScenarios(interpRules{equil: "equilibrium"})
			k.nameScenarios("construct", true, func(e *elemSpec, elem V, s *system) {
				k.checkInterpolation(e, elem, s, interpRules{equil: "equilibrium"})
			})
		}})
	register(&propSpec{id: "C05", min: 300, assume: []string{exact},
		rule: "abstract interpretation of Interpolate for arbitrary nodal values; every piece of u, w, phi must satisfy the kinematic and material law, be continuous and take the nodal values at non-hinged ends; unknown quantities give nil, queries in different order give identical value graphs and leave earlier results untouched",
		run: func(k *Check) {
			k.interpScenarios(interpRules{compat: "compatibility", unknown: "unknown-quantity", pure: "interpolation-pure"})
			k.nearScenarios(interpRules{compat: "compatibility"})
			k.manyScenarios(interpRules{compat: "compatibility"})
			k.nameScenarios("construct", false, func(e *elemSpec, elem V, s *system) {
				k.checkInterpolation(e, elem, s, interpRules{compat: "compatibility"})
			})
		}})
}
