package main

// Numeric abstract domain: Laurent polynomials with exact rational coefficients over symbolic atoms,
// together with the relations declared for the atoms (e.g. s² = 1 - c²).

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// NAtom is a numeric symbol.
type NAtom struct {
	id   int
	name string
	pos  bool  // known to be strictly positive (and not tiny)
	nz   bool  // known to be non-zero
	sq   *Poly // if not nil: atom² = sq
	inv  *Poly // if not nil: atom = 1/inv
	tiny bool  // positive infinitesimal (tolerances)
	mini bool  // of arbitrary magnitude: not known to exceed any tolerance
	// For trigonometric atoms:
	cosOf, sinOf *Poly
}

var (
	natoms    []*NAtom
	invAtoms  = map[string]*NAtom{}
	sqrtAtoms = map[string]*NAtom{}
)

func newAtom(name string) *NAtom {
	a := &NAtom{id: len(natoms), name: name}
	natoms = append(natoms, a)
	return a
}

func posAtom(name string) *NAtom {
	a := newAtom(name)
	a.pos, a.nz = true, true
	return a
}

var epsAtom = func() *NAtom { a := newAtom("eps"); a.pos, a.nz, a.tiny = true, true, true; return a }()

// mono is a sorted list of (atom id, exponent) pairs.
type pw struct{ a, e int }
type mono []pw

func (m mono) key() string {
	var sb strings.Builder
	for _, p := range m {
		sb.WriteString(strconv.Itoa(p.a))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(p.e))
		sb.WriteByte(' ')
	}
	return sb.String()
}

func mulMono(a, b mono) mono {
	r := make(mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i].a < b[j].a):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j].a < a[i].a:
			r = append(r, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				r = append(r, pw{a[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

func invMono(a mono) mono {
	r := make(mono, len(a))
	for i, p := range a {
		r[i] = pw{p.a, -p.e}
	}
	return r
}

type term struct {
	m mono
	c *big.Rat
}

// Poly is immutable once built.
type Poly struct {
	t   map[string]term
	key string
}

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	// Sorted by name, such that equal values print identically whatever the order of atom creation.
	var parts []string
	for _, t := range p.t {
		var fs []string
		if one := t.c.Cmp(big.NewRat(1, 1)) == 0; !one || len(t.m) == 0 {
			fs = append(fs, t.c.RatString())
		}
		n := len(fs)
		for _, x := range t.m {
			f := natoms[x.a].name
			if x.e != 1 {
				f += "^" + strconv.Itoa(x.e)
			}
			fs = append(fs, f)
		}
		sort.Strings(fs[n:])
		parts = append(parts, strings.Join(fs, "*"))
	}
	sort.Strings(parts)
	if len(parts) > 24 {
		h := fnv.New32a()
		for _, s := range parts {
			h.Write([]byte(s + "+"))
		}
		parts = append(parts[:24], fmt.Sprintf("... (%d terms, %x)", len(parts), h.Sum32()))
	}
	return strings.Join(parts, " + ")
}

func (p *Poly) sortedKeys() []string {
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		for _, k := range p.sortedKeys() {
			sb.WriteString(k)
			sb.WriteByte(':')
			sb.WriteString(p.t[k].c.RatString())
			sb.WriteByte(';')
		}
		sb.WriteByte('.')
		p.key = sb.String()
	}
	return p.key
}

var zeroPoly = &Poly{t: map[string]term{}}

func constPoly(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return zeroPoly
	}
	return &Poly{t: map[string]term{"": {nil, r}}}
}

func intPoly(i int64) *Poly    { return constPoly(big.NewRat(i, 1)) }
func ratPoly(a, b int64) *Poly { return constPoly(big.NewRat(a, b)) }
func atomPoly(a *NAtom) *Poly {
	m := mono{{a.id, 1}}
	return &Poly{t: map[string]term{m.key(): {m, big.NewRat(1, 1)}}}
}

func sym(name string) *Poly  { return atomPoly(newAtom(name)) }
func psym(name string) *Poly { return atomPoly(posAtom(name)) }

func (p *Poly) isZeroSyn() bool { return len(p.t) == 0 }

func (p *Poly) constVal() (*big.Rat, bool) {
	switch len(p.t) {
	case 0:
		return new(big.Rat), true
	case 1:
		if t, ok := p.t[""]; ok {
			return t.c, true
		}
	}
	return nil, false
}

func addTo(t map[string]term, k string, m mono, c *big.Rat) {
	if old, ok := t[k]; ok {
		s := new(big.Rat).Add(old.c, c)
		if s.Sign() == 0 {
			delete(t, k)
		} else {
			t[k] = term{m, s}
		}
	} else if c.Sign() != 0 {
		t[k] = term{m, c}
	}
}

func (p *Poly) Add(q *Poly) *Poly {
	if len(p.t) == 0 {
		return q
	}
	if len(q.t) == 0 {
		return p
	}
	t := make(map[string]term, len(p.t)+len(q.t))
	for k, x := range p.t {
		t[k] = x
	}
	for k, x := range q.t {
		addTo(t, k, x.m, x.c)
	}
	return &Poly{t: t}
}

func (p *Poly) Neg() *Poly { return p.Scale(big.NewRat(-1, 1)) }

func (p *Poly) Scale(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return zeroPoly
	}
	t := make(map[string]term, len(p.t))
	for k, x := range p.t {
		t[k] = term{x.m, new(big.Rat).Mul(x.c, r)}
	}
	return &Poly{t: t}
}

func (p *Poly) Sub(q *Poly) *Poly { return p.Add(q.Neg()) }

func (p *Poly) Mul(q *Poly) *Poly {
	if len(p.t) == 0 || len(q.t) == 0 {
		return zeroPoly
	}
	if len(p.t)*len(q.t) > 400000 {
		unsupported("polynomial product too large")
	}
	t := make(map[string]term, len(p.t)*len(q.t))
	need := false
	for _, x := range p.t {
		for _, y := range q.t {
			m := mulMono(x.m, y.m)
			for _, e := range m {
				if natoms[e.a].sq != nil && e.e >= 2 {
					need = true
				}
				if natoms[e.a].inv != nil && e.e < 0 {
					need = true
				}
			}
			addTo(t, m.key(), m, new(big.Rat).Mul(x.c, y.c))
		}
	}
	r := &Poly{t: t}
	if need {
		r = r.reduce()
	}
	return r
}

// reduce applies the relations of atoms.
func (p *Poly) reduce() *Poly {
	res := zeroPoly
	changed := false
	plain := map[string]term{}
	for _, k := range p.sortedKeys() {
		x := p.t[k]
		hit := -1
		for i, e := range x.m {
			if a := natoms[e.a]; (a.sq != nil && e.e >= 2) || (a.inv != nil && e.e < 0) {
				hit = i
				break
			}
		}
		if hit < 0 {
			addTo(plain, k, x.m, x.c)
			continue
		}
		changed = true
		e := x.m[hit]
		a := natoms[e.a]
		rest := append(append(mono{}, x.m[:hit]...), x.m[hit+1:]...)
		f := &Poly{t: map[string]term{rest.key(): {rest, x.c}}}
		if a.sq != nil && e.e >= 2 {
			for n := 0; n < e.e/2; n++ {
				f = f.Mul(a.sq)
			}
			if e.e%2 == 1 {
				f = f.Mul(atomPoly(a))
			}
		} else {
			for n := 0; n < -e.e; n++ {
				f = f.Mul(a.inv)
			}
		}
		res = res.Add(f)
	}
	if !changed {
		return p
	}
	return res.Add(&Poly{t: plain})
}

func (p *Poly) Pow(n int) *Poly {
	if n < 0 {
		return intPoly(1).Div(p.Pow(-n))
	}
	r := intPoly(1)
	for i := 0; i < n; i++ {
		r = r.Mul(p)
	}
	return r
}

// single returns the only term.
func (p *Poly) single() (term, bool) {
	if len(p.t) == 1 {
		for _, x := range p.t {
			return x, true
		}
	}
	return term{}, false
}

// content returns the monomial common to all terms (minimal exponents over all atoms).
func (p *Poly) content() mono {
	first := true
	exps := map[int]int{}
	for _, x := range p.t {
		cur := map[int]int{}
		for _, e := range x.m {
			cur[e.a] = e.e
		}
		if first {
			exps = cur
			first = false
			continue
		}
		for a := range exps {
			if _, ok := cur[a]; !ok {
				cur[a] = 0
			}
		}
		for a, e := range cur {
			old := exps[a]
			exps[a] = min(old, e)
		}
	}
	var m mono
	for a, e := range exps {
		if e != 0 {
			m = append(m, pw{a, e})
		}
	}
	sort.Slice(m, func(i, j int) bool { return m[i].a < m[j].a })
	return m
}

func monoPoly(m mono) *Poly {
	return &Poly{t: map[string]term{m.key(): {m, big.NewRat(1, 1)}}}
}

func lessMono(a, b mono) bool { // lexicographic monomial order, larger exponents of low ids first
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		if j == len(b) || (i < len(a) && a[i].a < b[j].a) {
			return a[i].e < 0
		}
		if i == len(a) || b[j].a < a[i].a {
			return b[j].e > 0
		}
		if a[i].e != b[j].e {
			return a[i].e < b[j].e
		}
		i++
		j++
	}
	return false
}

func (p *Poly) lead() term {
	var best term
	first := true
	for _, x := range p.t {
		if first || lessMono(best.m, x.m) {
			best = x
			first = false
		}
	}
	return best
}

// exactDiv tries multivariate division without remainder.
func (p *Poly) exactDiv(q *Poly) (*Poly, bool) {
	if len(q.t) == 0 {
		return nil, false
	}
	cp, cq := p.content(), q.content()
	a := p.Mul(monoPoly(invMono(cp)))
	b := q.Mul(monoPoly(invMono(cq)))
	quot := zeroPoly
	lb := b.lead()
	for step := 0; len(a.t) > 0; step++ {
		if step > 300 {
			return nil, false
		}
		la := a.lead()
		m := mulMono(la.m, invMono(lb.m))
		for _, e := range m {
			if e.e < 0 {
				return nil, false
			}
		}
		t := &Poly{t: map[string]term{m.key(): {m, new(big.Rat).Quo(la.c, lb.c)}}}
		quot = quot.Add(t)
		a = a.Sub(t.Mul(b))
	}
	r := quot.Mul(monoPoly(mulMono(cp, invMono(cq))))
	if !r.Mul(q).Sub(p).isZeroSyn() {
		return nil, false
	}
	return r, true
}

func (p *Poly) Div(q *Poly) *Poly {
	if len(q.t) == 0 {
		unsupported("division by zero")
	}
	if len(p.t) == 0 {
		return p
	}
	if t, ok := q.single(); ok {
		hasInv := false
		for _, e := range t.m {
			if natoms[e.a].inv != nil {
				hasInv = true
			}
		}
		f := monoPoly(invMono(t.m)).Scale(new(big.Rat).Inv(t.c))
		if hasInv {
			f = f.reduce()
		}
		return p.Mul(f)
	}
	if r, ok := p.exactDiv(q); ok {
		return r
	}
	// Normalise q: strip content and leading coefficient
	c := q.content()
	b := q.Mul(monoPoly(invMono(c)))
	l := b.lead().c
	b = b.Scale(new(big.Rat).Inv(l))
	a, ok := invAtoms[b.Key()]
	if !ok {
		a = newAtom("inv(" + b.String() + ")")
		a.inv = b
		a.nz = true
		invAtoms[b.Key()] = a
	}
	return p.Mul(monoPoly(invMono(c))).Scale(new(big.Rat).Inv(l)).Mul(atomPoly(a))
}

// IsZero decides whether p vanishes identically modulo the declared relations.
func (p *Poly) IsZero() bool {
	for round := 0; round < 20; round++ {
		if len(p.t) == 0 {
			return true
		}
		// find inv atom
		var target *NAtom
		maxE := 0
		for _, x := range p.t {
			for _, e := range x.m {
				if a := natoms[e.a]; a.inv != nil && e.e > 0 && (target == nil || a.id >= target.id) {
					if target != a {
						maxE = 0
					}
					target = a
					maxE = max(maxE, e.e)
				}
			}
		}
		if target == nil {
			// tolerate float round-off in constants
			for _, x := range p.t {
				f, _ := x.c.Float64()
				if math.Abs(f) > 1e-12 {
					return false
				}
			}
			return true
		}
		res := zeroPoly
		for _, x := range p.t {
			k := 0
			var rest mono
			for _, e := range x.m {
				if e.a == target.id {
					k = e.e
				} else {
					rest = append(rest, e)
				}
			}
			f := &Poly{t: map[string]term{rest.key(): {rest, x.c}}}
			for n := 0; n < maxE-k; n++ {
				f = f.Mul(target.inv)
			}
			res = res.Add(f)
		}
		p = res
	}
	return false
}

func (p *Poly) Equal(q *Poly) bool { return p == q || p.Key() == q.Key() || p.Sub(q).IsZero() }

// subst replaces an atom by a polynomial.
func (p *Poly) subst(a *NAtom, by *Poly) *Poly {
	uses := false
	for _, x := range p.t {
		for _, e := range x.m {
			if e.a == a.id || (natoms[e.a].inv != nil && natoms[e.a].inv.uses(a)) || (natoms[e.a].sq != nil && natoms[e.a].sq.uses(a)) {
				uses = true
			}
		}
	}
	if !uses {
		return p
	}
	res := zeroPoly
	for _, x := range p.t {
		f := constPoly(x.c)
		for _, e := range x.m {
			at := natoms[e.a]
			switch {
			case at == a:
				f = f.Mul(by.Pow(e.e))
			case at.inv != nil && at.inv.uses(a):
				d := at.inv.subst(a, by)
				for n := 0; n < e.e; n++ {
					f = f.Div(d)
				}
			default:
				f = f.Mul(monoPoly(mono{e}))
			}
		}
		res = res.Add(f)
	}
	return res
}

func (p *Poly) uses(a *NAtom) bool {
	for _, x := range p.t {
		for _, e := range x.m {
			if e.a == a.id || (natoms[e.a].inv != nil && natoms[e.a].inv.uses(a)) {
				return true
			}
		}
	}
	return false
}

// coefOf returns the coefficient polynomial of a^n.
func (p *Poly) coefOf(a *NAtom, n int) *Poly {
	t := map[string]term{}
	for _, x := range p.t {
		k := 0
		var rest mono
		for _, e := range x.m {
			if e.a == a.id {
				k = e.e
			} else {
				rest = append(rest, e)
			}
		}
		if k == n {
			addTo(t, rest.key(), rest, x.c)
		}
	}
	return &Poly{t: t}
}

func (p *Poly) maxExp(a *NAtom) int {
	r := 0
	for _, x := range p.t {
		for _, e := range x.m {
			if e.a == a.id {
				r = max(r, e.e)
			}
		}
	}
	return r
}

// deriv differentiates with respect to an atom (non-negative exponents only).
func (p *Poly) deriv(a *NAtom) *Poly {
	res := zeroPoly
	for n := 1; n <= p.maxExp(a); n++ {
		res = res.Add(p.coefOf(a, n).Mul(atomPoly(a).Pow(n - 1)).Scale(big.NewRat(int64(n), 1)))
	}
	return res
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) != 0 || new(big.Int).Mul(d, d).Cmp(r.Denom()) != 0 {
		return nil, false
	}
	return new(big.Rat).SetFrac(n, d), true
}

// Sqrt computes the non-negative square root, if necessary as a new atom.
func (p *Poly) Sqrt(sign func(*Poly) (int, bool)) *Poly {
	if len(p.t) == 0 {
		return p
	}
	if t, ok := p.single(); ok {
		if c, ok := ratSqrt(t.c); ok {
			half := mono{}
			good := true
			for _, e := range t.m {
				if e.e%2 != 0 {
					good = false
					break
				}
				half = append(half, pw{e.a, e.e / 2})
			}
			if good {
				r := monoPoly(half).Scale(c)
				if s, ok := sign(r); ok {
					if s < 0 {
						return r.Neg()
					}
					return r
				}
			}
		}
	}
	// perfect square of a multi-term polynomial: try the square root through the leading term
	if r, ok := p.polySqrt(); ok {
		if s, ok := sign(r); ok {
			if s < 0 {
				return r.Neg()
			}
			return r
		}
	}
	a, ok := sqrtAtoms[p.Key()]
	if !ok {
		a = newAtom("sqrt(" + p.String() + ")")
		a.sq = p
		a.pos = true // at least non-negative
		if s, ok := sign(p); ok && s > 0 {
			a.nz = true
		}
		sqrtAtoms[p.Key()] = a
	}
	return atomPoly(a)
}

func (p *Poly) polySqrt() (*Poly, bool) {
	c := p.content()
	for _, e := range c {
		if e.e%2 != 0 {
			return nil, false
		}
	}
	half := mono{}
	for _, e := range c {
		half = append(half, pw{e.a, e.e / 2})
	}
	a := p.Mul(monoPoly(invMono(c)))
	l := a.lead()
	lc, ok := ratSqrt(l.c)
	if !ok {
		return nil, false
	}
	lm := mono{}
	for _, e := range l.m {
		if e.e%2 != 0 {
			return nil, false
		}
		lm = append(lm, pw{e.a, e.e / 2})
	}
	lt := monoPoly(lm).Scale(lc)
	r := lt
	for step := 0; step < 12; step++ {
		rem := a.Sub(r.Mul(r))
		if rem.isZeroSyn() {
			return r.Mul(monoPoly(half)), true
		}
		rl := rem.lead()
		m := mulMono(rl.m, invMono(lm))
		for _, e := range m {
			if e.e < 0 {
				return nil, false
			}
		}
		t := &Poly{t: map[string]term{m.key(): {m, new(big.Rat).Quo(rl.c, new(big.Rat).Mul(lc, big.NewRat(2, 1)))}}}
		r = r.Add(t)
	}
	return nil, false
}

// floatPoly converts a float constant to a polynomial; values that are rounded simple fractions are
// mapped to the exact fraction, and tiny ones become multiples of the infinitesimal eps = 1e-10.
func floatPoly(f float64) *Poly {
	if f == 0 {
		return zeroPoly
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		unsupported("non-finite constant")
	}
	r := snap(f)
	if math.Abs(f) <= 1e-7 {
		k := new(big.Rat).Mul(r, big.NewRat(10000000000, 1))
		return atomPoly(epsAtom).Scale(k)
	}
	return constPoly(r)
}

func snap(f float64) *big.Rat {
	s := strconv.FormatFloat(f, 'e', -1, 64)
	mant := strings.SplitN(strings.TrimPrefix(s, "-"), "e", 2)[0]
	if len(mant) <= 14 {
		r, ok := new(big.Rat).SetString(s)
		if ok {
			return r
		}
	}
	// continued fraction
	x := new(big.Rat).SetFloat64(f)
	neg := x.Sign() < 0
	if neg {
		x.Neg(x)
	}
	v, _ := x.Float64()
	p0, q0, p1, q1 := int64(0), int64(1), int64(1), int64(0)
	y := v
	for i := 0; i < 20; i++ {
		a := math.Floor(y)
		if a > 1e6 {
			break
		}
		p2, q2 := int64(a)*p1+p0, int64(a)*q1+q0
		if q2 > 100000 || p2 > 1e9 {
			break
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if math.Abs(float64(p1)/float64(q1)-v) <= 4e-16*v {
			r := big.NewRat(p1, q1)
			if neg {
				r.Neg(r)
			}
			return r
		}
		if y == a {
			break
		}
		y = 1 / (y - a)
	}
	return new(big.Rat).SetFloat64(f)
}

func ratInt(i int) *big.Rat { return big.NewRat(int64(i), 1) }

func absInvRat(l *big.Rat, o int) *big.Rat {
	r := new(big.Rat).Inv(l)
	if o < 0 {
		// keep orientation in the sign: p = o * |l| * canon, canon has a positive leading coefficient
		return r
	}
	return r
}
