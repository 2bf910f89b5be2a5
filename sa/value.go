package main

// Abstract values. A value is either a leaf or a gated value *Ite, i.e. a node of an ordered decision
// diagram over condition atoms. The gates record what the control flow merged at a join.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Unsupported struct{ Msg string }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

type V any

type (
	Int  int64
	Bool bool
	Num  struct{ p *Poly }
	Str  struct{ s string }
	// SymStr is an unknown string, identified by pointer.
	SymStr struct {
		name   string
		opaque bool // result of formatting; only usable as text
		minLen int
	}
	Ptr struct {
		o    *Obj
		path string // comma-separated indices
	}
	Slice struct {
		o             *Obj
		path          string // of the array within o
		off, len, cap int
	}
	MapRef struct{ o *Obj }
	Func   struct {
		fn   *ssa.Function
		bind *Obj // Tuple of bindings, shared
		nat  *NativeFn
	}
	Iface struct {
		typ types.Type // nil for the nil interface
		val V
	}
	Struct struct{ f []V }
	Array  struct{ e []V }
	Tuple  struct{ e []V }
	// Dead is bottom: the value of an expression on a path that isn't feasible or panicked.
	Dead struct{}
	// Opaque is an unknown value of some type that can only be passed on.
	Opaque struct {
		name string
		typ  types.Type
	}
)

type NativeFn struct {
	name string
	fn   func(it *Interp, args []V) V
}

// Obj is a memory object; its content lives in the state.
type Obj struct {
	id   int
	name string
	typ  types.Type
}

// MapVal is the content of a map object.
type MapVal struct {
	ents []MapEnt
}

type MapEnt struct {
	k, v V
	has  V // Bool or gated Bool
}

// Condition atoms.
type Atom struct {
	id   int
	kind string // "lt0", "eq0", "streq", "ideq", "opaque"
	p    *Poly
	s    *SymStr
	s2   any // string constant or *SymStr
	name string
}

func (a *Atom) String() string {
	switch a.kind {
	case "lt0":
		return "(" + a.p.String() + " < 0)"
	case "eq0":
		return "(" + a.p.String() + " == 0)"
	case "streq":
		switch x := a.s2.(type) {
		case string:
			return fmt.Sprintf("(%v == %q)", a.s.name, x)
		case *SymStr:
			return fmt.Sprintf("(%v == %v)", a.s.name, x.name)
		}
	}
	return a.name
}

var (
	atoms    []*Atom
	atomsBy  = map[string]*Atom{}
	objCount int
)

func internAtom(key string, mk func() *Atom) *Atom {
	if a, ok := atomsBy[key]; ok {
		return a
	}
	a := mk()
	a.id = len(atoms)
	atoms = append(atoms, a)
	atomsBy[key] = a
	return a
}

func opaqueAtom(name string) *Atom {
	return internAtom("op:"+name, func() *Atom { return &Atom{kind: "opaque", name: name} })
}

type Ite struct {
	c    *Atom
	t, e V
}

// Ctx is a set of assumed literals.
type Ctx struct {
	lits []Lit
}

type Lit struct {
	a *Atom
	v bool
}

func (l Lit) String() string {
	if l.v {
		return l.a.String()
	}
	return "not " + l.a.String()
}

func (c *Ctx) with(a *Atom, v bool) *Ctx {
	checkBudget()
	n := &Ctx{lits: make([]Lit, len(c.lits), len(c.lits)+1)}
	copy(n.lits, c.lits)
	n.lits = append(n.lits, Lit{a, v})
	return n
}

func (c *Ctx) String() string {
	if len(c.lits) == 0 {
		return "always"
	}
	var p []string
	for _, l := range c.lits {
		p = append(p, l.String())
	}
	return strings.Join(p, " and ")
}

// facts are globally assumed positive polynomials (besides positive atoms).
type Facts struct {
	positive []*Poly
}

var facts = &Facts{}

// decide tells whether atom a has a known truth value in ctx.
func (c *Ctx) decide(a *Atom) (val, known bool) {
	for _, l := range c.lits {
		if l.a == a {
			return l.v, true
		}
	}
	switch a.kind {
	case "lt0", "eq0":
		if s, ok := c.sign(a.p); ok {
			if a.kind == "lt0" {
				return s < 0, true
			}
			return s == 0, true
		}
		if a.kind == "eq0" && c.cannotVanish(a.p) {
			return false, true
		}
		// p canonical: literal relations on the same polynomial
		for _, l := range c.lits {
			if l.a.p == nil || l.a.p.Key() != a.p.Key() {
				continue
			}
			if l.a.kind == "lt0" && l.v && a.kind == "eq0" {
				return false, true
			}
			if l.a.kind == "eq0" && l.v && a.kind == "lt0" {
				return false, true
			}
		}
	case "streq":
		for _, l := range c.lits {
			if l.a.kind == "streq" && l.a.s == a.s && l.v {
				x, ok1 := l.a.s2.(string)
				y, ok2 := a.s2.(string)
				if ok1 && ok2 {
					return x == y, true
				}
			}
		}
	}
	return false, false
}

// sign decides the sign of a polynomial in the context.
func (c *Ctx) sign(p *Poly) (int, bool) {
	return c.signDepth(p, 0)
}

func (c *Ctx) signDepth(p *Poly, depth int) (int, bool) {
	if len(p.t) == 0 {
		return 0, true
	}
	if s, ok := signBasic(p); ok {
		return s, true
	}
	if s, ok := c.signTerms(p); ok {
		return s, true
	}
	// infinitesimals: dominated by the non-tiny part when that has a strict sign
	main, tiny := splitTiny(p)
	if len(tiny.t) > 0 && len(main.t) > 0 && !anyMagnitude(main) {
		if s, ok := c.signDepth(main, depth+1); ok {
			if s != 0 {
				return s, true
			}
			return c.signDepth(tiny, depth+1)
		}
		// |x| vs tolerance is left undecided
	}
	// strip positive content
	m := p.content()
	stripped := p
	var keep mono
	flip := 1
	for _, e := range m {
		a := natoms[e.a]
		switch {
		case a.pos:
			keep = append(keep, e)
		case a.inv != nil:
			if s, ok := c.signDepth(a.inv, depth+1); ok && s != 0 && depth < 6 {
				if s < 0 && e.e%2 != 0 {
					flip = -flip
				}
				keep = append(keep, e)
			}
		case a.nz && e.e%2 == 0:
			keep = append(keep, e)
		}
	}
	if len(keep) > 0 {
		stripped = p.Mul(monoPoly(invMono(keep)))
		if s, ok := signBasic(stripped); ok {
			return s * flip, true
		}
	}
	cp, orient := canon(stripped)
	for _, l := range c.lits {
		if l.a.p == nil || (l.a.kind != "lt0" && l.a.kind != "eq0") {
			continue
		}
		if l.a.p.Key() == cp.Key() {
			if l.a.kind == "lt0" && l.v {
				return -orient * flip, true
			}
			if l.a.kind == "eq0" && l.v {
				return 0, true
			}
			if l.a.kind == "lt0" && !l.v { // >= 0
				for _, k := range c.lits {
					if k.a.kind == "eq0" && !k.v && k.a.p.Key() == cp.Key() {
						return orient * flip, true
					}
				}
			}
		}
	}
	if s, ok := c.signByOffset(cp); ok {
		return s * orient * flip, true
	}
	if depth < 5 {
		for _, f := range facts.positive {
			if len(f.t) < 2 {
				continue
			}
			if q, ok := stripped.exactDiv(f); ok && len(q.t) < len(stripped.t)+1 {
				if s, ok := c.signDepth(q, depth+1); ok {
					return s * flip, true
				}
			}
		}
		// sum of a known positive polynomial and something with the same sign
		for _, f := range facts.positive {
			for _, sg := range []int{1, -1} {
				rest := stripped.Sub(f.Scale(ratInt(sg)))
				if len(rest.t) < len(stripped.t) {
					if s, ok := signBasic(rest); ok && (s == sg || s == 0) {
						return sg * flip, true
					}
				}
			}
		}
	}
	return 0, false
}

// signByOffset decides the sign of p from an assumed comparison with a polynomial that differs from
// a multiple of p by something of known sign.
func (c *Ctx) signByOffset(p *Poly) (int, bool) {
	if len(p.t) > 4 || len(c.lits) == 0 {
		return 0, false
	}
	for _, l := range c.lits {
		q := l.a.p
		if q == nil || len(q.t) > 4 || (l.a.kind != "lt0" && l.a.kind != "eq0") || (l.a.kind == "eq0" && !l.v) {
			continue
		}
		for k, x := range p.t {
			y, ok := q.t[k]
			if !ok || len(x.m) == 0 {
				continue
			}
			r := p.Sub(q.Scale(new(big.Rat).Quo(x.c, y.c)))
			if len(r.t) >= len(p.t) && len(r.t) >= len(q.t) {
				continue
			}
			rs, ok := signBasic(r)
			if !ok {
				continue
			}
			ls := x.c.Sign() * y.c.Sign()
			switch {
			case l.a.kind == "eq0":
				return rs, true
			case l.v && ls > 0 && rs <= 0:
				return -1, true
			case l.v && ls < 0 && rs >= 0:
				return 1, true
			case !l.v && ls > 0 && rs > 0:
				return 1, true
			case !l.v && ls < 0 && rs < 0:
				return -1, true
			}
		}
	}
	return 0, false
}

// cannotVanish tells if p = 0 contradicts the context because a square would have to be negative or
// a root of something positive zero.
func (c *Ctx) cannotVanish(p *Poly) bool {
	t, ok := p.single()
	if !ok {
		return false
	}
	zero := map[int]bool{}
	for _, e := range t.m {
		if a := natoms[e.a]; !a.nz && e.e > 0 {
			if len(zero) > 0 {
				return false
			}
			zero[e.a] = true
		}
	}
	if len(zero) == 0 {
		return false
	}
	for _, l := range c.lits {
		if l.a.kind == "eq0" && l.v {
			if t, ok := l.a.p.single(); ok && len(t.m) == 1 && t.m[0].e > 0 {
				zero[t.m[0].a] = true
			}
		}
	}
	for id := range zero {
		sq := natoms[id].sq
		if sq == nil {
			continue
		}
		for z := range zero {
			if z != id && sq.uses(natoms[z]) {
				sq = sq.subst(natoms[z], zeroPoly)
			}
		}
		if s, ok := signBasic(sq); ok && s != 0 {
			return true
		}
	}
	return false
}

// atomSign is the strict sign of an atom, known globally or assumed in the context.
func (c *Ctx) atomSign(a *NAtom) (int, bool) {
	if a.pos && a.nz {
		return 1, true
	}
	lt, eq := 0, 0
	for _, l := range c.lits {
		if l.a.p == nil || len(l.a.p.t) != 1 {
			continue
		}
		t, _ := l.a.p.single()
		if len(t.m) != 1 || t.m[0].a != a.id || t.m[0].e != 1 || t.c.Sign() < 0 {
			continue
		}
		v := -1
		if l.v {
			v = 1
		}
		if l.a.kind == "lt0" {
			lt = v
		} else if l.a.kind == "eq0" {
			eq = v
		}
	}
	switch {
	case lt == 1:
		return -1, true
	case lt == -1 && eq == -1:
		return 1, true
	case eq == 1:
		return 0, true
	}
	return 0, false
}

// signTerms: all terms have the same sign given the signs of atoms in the context.
func (c *Ctx) signTerms(p *Poly) (int, bool) {
	if len(c.lits) == 0 {
		return 0, false
	}
	res := 0
	for _, x := range p.t {
		s := x.c.Sign()
		for _, e := range x.m {
			as, ok := c.atomSign(natoms[e.a])
			if !ok {
				return 0, false
			}
			if e.e%2 == 0 {
				as *= as
			}
			s *= as
		}
		if s == 0 {
			continue
		}
		if res != 0 && res != s {
			return 0, false
		}
		res = s
	}
	return res, true
}

// anyMagnitude tells if a polynomial has a factor that may be smaller than a tolerance.
func anyMagnitude(p *Poly) bool {
	for _, x := range p.t {
		for _, e := range x.m {
			if natoms[e.a].mini {
				return true
			}
		}
	}
	return false
}

func splitTiny(p *Poly) (main, tiny *Poly) {
	mt, tt := map[string]term{}, map[string]term{}
	for k, x := range p.t {
		isTiny := false
		for _, e := range x.m {
			if natoms[e.a].tiny && e.e > 0 {
				isTiny = true
			}
		}
		if isTiny {
			tt[k] = x
		} else {
			mt[k] = x
		}
	}
	return &Poly{t: mt}, &Poly{t: tt}
}

// signBasic: all terms have the same known sign.
func signBasic(p *Poly) (int, bool) {
	if len(p.t) == 0 {
		return 0, true
	}
	res := 0
	for _, x := range p.t {
		s := x.c.Sign()
		for _, e := range x.m {
			a := natoms[e.a]
			if a.pos && a.nz || a.nz && e.e%2 == 0 {
				continue
			}
			return 0, false
		}
		if res != 0 && res != s {
			return 0, false
		}
		res = s
	}
	return res, true
}

// canon normalises a polynomial up to a positive factor and sign; returns orientation ±1.
func canon(p *Poly) (*Poly, int) {
	// strip positive content to get equal atoms for x<y and 2x<2y etc.
	var keep mono
	for _, e := range p.content() {
		if a := natoms[e.a]; a.pos && a.nz {
			keep = append(keep, e)
		}
	}
	if len(keep) > 0 {
		p = p.Mul(monoPoly(invMono(keep)))
	}
	l := p.lead().c
	o := l.Sign()
	return p.Scale(absInvRat(l, o)), o
}

// comparisons -------------------------------------------------------------

func (c *Ctx) lt0(p *Poly) V { // p < 0
	if s, ok := c.sign(p); ok {
		return Bool(s < 0)
	}
	cp, o := canon(p)
	lt := internAtom("lt:"+cp.Key(), func() *Atom { return &Atom{kind: "lt0", p: cp} })
	if o > 0 {
		return c.atomV(lt)
	}
	eq := internAtom("eq:"+cp.Key(), func() *Atom { return &Atom{kind: "eq0", p: cp} })
	return c.not(c.or(c.atomV(lt), c.atomV(eq)))
}

func (c *Ctx) eq0(p *Poly) V {
	if p.IsZero() {
		return Bool(true)
	}
	if s, ok := c.sign(p); ok {
		return Bool(s == 0)
	}
	cp, _ := canon(p)
	// modulo equalities of the context
	if q := c.applyEqs(cp); q.Key() != cp.Key() {
		return c.eq0(q)
	}
	if c.cannotVanish(cp) {
		return Bool(false)
	}
	eq := internAtom("eq:"+cp.Key(), func() *Atom { return &Atom{kind: "eq0", p: cp} })
	return c.atomV(eq)
}

// applyEqs substitutes linear equalities assumed in ctx.
func (c *Ctx) applyEqs(p *Poly) *Poly {
	for _, l := range c.lits {
		if l.a.kind != "eq0" || !l.v {
			continue
		}
		if a, by, ok := solveFor(l.a.p); ok {
			p = p.subst(a, by)
		}
	}
	return p
}

// solveFor solves p = 0 for an atom that occurs linearly with invertible coefficient.
func solveFor(p *Poly) (*NAtom, *Poly, bool) {
	ids := map[int]bool{}
	for _, x := range p.t {
		for _, e := range x.m {
			ids[e.a] = true
		}
	}
	var order []int
	for id := range ids {
		order = append(order, id)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(order)))
	for _, id := range order {
		a := natoms[id]
		if a.tiny || a.inv != nil || a.sq != nil || p.maxExp(a) != 1 {
			continue
		}
		neg := false
		for _, x := range p.t {
			for _, e := range x.m {
				if e.a == id && e.e < 0 {
					neg = true
				}
			}
		}
		if neg {
			continue
		}
		k := p.coefOf(a, 1)
		t, ok := k.single()
		if !ok {
			continue
		}
		okc := true
		for _, e := range t.m {
			if !natoms[e.a].nz {
				okc = false
			}
		}
		if okc {
			return a, p.coefOf(a, 0).Div(k).Neg(), true
		}
	}
	return nil, nil, false
}

func (c *Ctx) atomV(a *Atom) V {
	if v, ok := c.decide(a); ok {
		return Bool(v)
	}
	return &Ite{a, Bool(true), Bool(false)}
}

func atomBool(a *Atom) V { return &Ite{a, Bool(true), Bool(false)} }

// decision diagrams ---------------------------------------------------------

func same(a, b V) bool {
	if x, ok := a.(*Ite); ok {
		y, ok := b.(*Ite)
		return ok && (x == y || (x.c == y.c && same(x.t, y.t) && same(x.e, y.e)))
	}
	if _, ok := b.(*Ite); ok {
		return false
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case Num:
		y, ok := b.(Num)
		return ok && (x.p == y.p || x.p.Key() == y.p.Key())
	case Struct:
		y, ok := b.(Struct)
		return ok && sameList(x.f, y.f)
	case Array:
		y, ok := b.(Array)
		return ok && sameList(x.e, y.e)
	case Tuple:
		y, ok := b.(Tuple)
		return ok && sameList(x.e, y.e)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && same(x.val, y.val)
	case *MapVal:
		y, ok := b.(*MapVal)
		if !ok || len(x.ents) != len(y.ents) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.ents {
			if !same(x.ents[i].k, y.ents[i].k) || !same(x.ents[i].v, y.ents[i].v) || !same(x.ents[i].has, y.ents[i].has) {
				return false
			}
		}
		return true
	case *MatHdr:
		y, ok := b.(*MatHdr)
		return ok && (x == y || *x == *y)
	case *CholHdr:
		y, ok := b.(*CholHdr)
		return ok && (x == y || (!x.valid && !y.valid))
	case Bool, Int, Str, *SymStr, Ptr, Slice, MapRef, Func, Dead, *Opaque, *JData, *NativeObj:
		return a == b
	}
	if mv, ok := a.(*RangeIter); ok {
		y, ok := b.(*RangeIter)
		return ok && mv == y
	}
	return a == b
}

func sameList(a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func mk(c *Atom, t, e V) V {
	if _, ok := t.(Dead); ok {
		return e
	}
	if _, ok := e.(Dead); ok {
		return t
	}
	if same(t, e) {
		return t
	}
	return &Ite{c, t, e}
}

func topAtom(vs ...V) *Atom {
	var best *Atom
	for _, v := range vs {
		if x, ok := v.(*Ite); ok && (best == nil || x.c.id < best.id) {
			best = x.c
		}
	}
	return best
}

func cof(v V, a *Atom, b bool) V {
	if x, ok := v.(*Ite); ok && x.c == a {
		if b {
			return x.t
		}
		return x.e
	}
	return v
}

// restrict drops branches that contradict ctx.
func (c *Ctx) restrict(v V) V {
	x, ok := v.(*Ite)
	if !ok {
		return v
	}
	if len(c.lits) == 0 && x.c.kind != "lt0" && x.c.kind != "eq0" {
		// Still need to prune infeasible combinations below
	}
	if val, known := c.decide(x.c); known {
		if val {
			return c.restrict(x.t)
		}
		return c.restrict(x.e)
	}
	t := c.with(x.c, true).restrict(x.t)
	e := c.with(x.c, false).restrict(x.e)
	if same(t, x.t) && same(e, x.e) {
		return mkKeep(x, t, e)
	}
	return mk(x.c, t, e)
}

func mkKeep(x *Ite, t, e V) V {
	if same(t, e) {
		return t
	}
	return x
}

// apply lifts a leaf operation over gated values.
func (c *Ctx) apply(f func(c *Ctx, ls []V) V, vs ...V) V {
	a := topAtom(vs...)
	if a == nil {
		for _, v := range vs {
			if _, ok := v.(Dead); ok {
				return Dead{}
			}
		}
		return f(c, vs)
	}
	sub := func(b bool) V {
		n := make([]V, len(vs))
		for i, v := range vs {
			n[i] = cof(v, a, b)
		}
		return c.with(a, b).apply(f, n...)
	}
	if val, known := c.decide(a); known {
		n := make([]V, len(vs))
		for i, v := range vs {
			n[i] = cof(v, a, val)
		}
		return c.apply(f, n...)
	}
	t := sub(true)
	e := sub(false)
	return c.mkOrd(a, t, e)
}

// mkOrd builds ite(a,t,e) restoring the atom order, since leaf operations may introduce smaller atoms.
func (c *Ctx) mkOrd(a *Atom, t, e V) V {
	if _, ok := t.(Dead); ok {
		return e
	}
	if _, ok := e.(Dead); ok {
		return t
	}
	if same(t, e) {
		return t
	}
	top := topAtom(t, e)
	if top == nil || top.id > a.id {
		return &Ite{a, t, e}
	}
	if top == a {
		return mk(a, cof(t, a, true), cof(e, a, false))
	}
	return mk(top, c.mkOrd(a, cof(t, top, true), cof(e, top, true)), c.mkOrd(a, cof(t, top, false), cof(e, top, false)))
}

func (c *Ctx) ite(g V, t, e V) V {
	switch x := g.(type) {
	case Bool:
		if x {
			return t
		}
		return e
	case Dead:
		return Dead{}
	}
	if _, ok := t.(Dead); ok {
		return e
	}
	if _, ok := e.(Dead); ok {
		return t
	}
	if same(t, e) {
		return t
	}
	// aggregates are merged component-wise
	switch x := t.(type) {
	case Struct:
		if y, ok := e.(Struct); ok && len(x.f) == len(y.f) {
			return Struct{c.iteList(g, x.f, y.f)}
		}
	case Array:
		if y, ok := e.(Array); ok && len(x.e) == len(y.e) {
			return Array{c.iteList(g, x.e, y.e)}
		}
	case Tuple:
		if y, ok := e.(Tuple); ok && len(x.e) == len(y.e) {
			return Tuple{c.iteList(g, x.e, y.e)}
		}
	case Iface:
		if y, ok := e.(Iface); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) && !isNativeType(x.typ) {
			return Iface{x.typ, c.ite(g, x.val, y.val)}
		}
	case *MapVal:
		if y, ok := e.(*MapVal); ok {
			return c.mergeMaps(g, x, y)
		}
	}
	a := topAtom(g, t, e)
	if val, known := c.decide(a); known {
		return c.ite(cof(g, a, val), cof(t, a, val), cof(e, a, val))
	}
	tt := c.with(a, true).ite(cof(g, a, true), cof(t, a, true), cof(e, a, true))
	ee := c.with(a, false).ite(cof(g, a, false), cof(t, a, false), cof(e, a, false))
	return c.mkOrd(a, tt, ee)
}

func (c *Ctx) iteList(g V, x, y []V) []V {
	r := make([]V, len(x))
	for i := range x {
		r[i] = c.ite(g, x[i], y[i])
	}
	return r
}

func (c *Ctx) mergeMaps(g V, x, y *MapVal) V {
	// Entries common to both (same key) keep their relative order; others get a guarded presence.
	r := &MapVal{}
	used := make([]bool, len(y.ents))
	for _, e := range x.ents {
		found := -1
		for j, f := range y.ents {
			if !used[j] && same(e.k, f.k) {
				found = j
				break
			}
		}
		if found >= 0 {
			used[found] = true
			f := y.ents[found]
			r.ents = append(r.ents, MapEnt{e.k, c.iteDef(g, e.has, f.has, e.v, f.v), c.ite(g, e.has, f.has)})
		} else {
			r.ents = append(r.ents, MapEnt{e.k, e.v, c.and(g, e.has)})
		}
	}
	for j, f := range y.ents {
		if !used[j] {
			r.ents = append(r.ents, MapEnt{f.k, f.v, c.and(c.not(g), f.has)})
		}
	}
	return r
}

func (c *Ctx) iteDef(g, h1, h2, v1, v2 V) V {
	if h, ok := h1.(Bool); ok && !bool(h) {
		return v2
	}
	if h, ok := h2.(Bool); ok && !bool(h) {
		return v1
	}
	return c.ite(g, v1, v2)
}

func (c *Ctx) not(x V) V {
	return c.apply(func(_ *Ctx, l []V) V { return Bool(!bool(l[0].(Bool))) }, x)
}
func (c *Ctx) and(x, y V) V {
	if b, ok := x.(Bool); ok {
		if !bool(b) {
			return b
		}
		return y
	}
	return c.apply(func(_ *Ctx, l []V) V { return l[0].(Bool) && l[1].(Bool) }, x, y)
}
func (c *Ctx) or(x, y V) V {
	if b, ok := x.(Bool); ok {
		if bool(b) {
			return b
		}
		return y
	}
	return c.apply(func(_ *Ctx, l []V) V { return l[0].(Bool) || l[1].(Bool) }, x, y)
}

// leaves enumerates the feasible leaves of a value with their conditions.
func (c *Ctx) leaves(v V, f func(c *Ctx, leaf V)) {
	if x, ok := v.(*Ite); ok {
		if val, known := c.decide(x.c); known {
			c.leaves(map[bool]V{true: x.t, false: x.e}[val], f)
			return
		}
		c.with(x.c, true).leaves(x.t, f)
		c.with(x.c, false).leaves(x.e, f)
		return
	}
	if _, dead := v.(Dead); dead {
		return
	}
	f(c, v)
}

// leavesAll enumerates joint leaves of several values.
func (c *Ctx) leavesAll(f func(c *Ctx, ls []V), vs ...V) {
	a := topAtom(vs...)
	if a == nil {
		for _, v := range vs {
			if _, dead := v.(Dead); dead {
				return
			}
		}
		f(c, vs)
		return
	}
	try := func(b bool, cc *Ctx) {
		n := make([]V, len(vs))
		for i, v := range vs {
			n[i] = cof(v, a, b)
		}
		cc.leavesAll(f, n...)
	}
	if val, known := c.decide(a); known {
		try(val, c)
		return
	}
	try(true, c.with(a, true))
	try(false, c.with(a, false))
}

func show(v V) string {
	switch x := v.(type) {
	case *Ite:
		return fmt.Sprintf("if %v then %v else %v", x.c, show(x.t), show(x.e))
	case Num:
		return x.p.String()
	case Str:
		return fmt.Sprintf("%q", x.s)
	case *SymStr:
		return x.name
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%v)", x.typ, show(x.val))
	case Struct:
		return "{" + showList(x.f) + "}"
	case Array:
		return "[" + showList(x.e) + "]"
	case Tuple:
		return "(" + showList(x.e) + ")"
	case Ptr:
		if x.o == nil {
			return "nil"
		}
		return fmt.Sprintf("&%v#%d.%v", x.o.name, x.o.id, x.path)
	case Slice:
		if x.o == nil {
			return "nil-slice"
		}
		return fmt.Sprintf("slice#%d%s[%d:%d:%d]", x.o.id, x.path, x.off, x.off+x.len, x.cap)
	case *MatHdr:
		return x.String()
	}
	return fmt.Sprintf("%v", v)
}

func showList(l []V) string {
	var p []string
	for _, v := range l {
		p = append(p, show(v))
	}
	return strings.Join(p, " ")
}
