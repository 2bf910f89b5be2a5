package main

// The abstract interpreter: walks the SSA form of /repo's current source, evaluates instructions in the
// abstract domain, analyses both sides of undecided branches and merges them at the immediate
// postdominator (gated values). Nothing of the analysed program is executed or compiled.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	parent *State
	mods   map[*Obj]V
	ctx    *Ctx
}

func (s *State) child(ctx *Ctx) *State { return &State{parent: s, mods: map[*Obj]V{}, ctx: ctx} }

func (s *State) get(o *Obj) (V, bool) {
	for x := s; x != nil; x = x.parent {
		if v, ok := x.mods[o]; ok {
			return v, true
		}
	}
	return nil, false
}

type Interp struct {
	prog     *Program
	st       *State
	fr       *Frame
	steps    int
	maxStep  int
	deadline time.Time // of the scenario
	depth    int
	globals  map[*ssa.Global]*Obj
	// Analysis parameters
	mapReverse bool
	elementID  string            // identifier of all stub elements, if set
	mapOrder   func(n int) []int // order in which the next traversal of a map with n entries visits them
	growExact  bool
	anyDiv     bool // a division by zero yields an unknown number (as floating-point numbers do)
	freshCount int
	// Observations
	events     []Event
	visited    map[*ssa.Function]int
	branches   int
	forks      int
	mapRanges  map[string]int
	docs       map[any]bool
	writes     map[siteKey][3]token.Pos
	access     *access
	cholCalls  int
	cholSolves []*cholSolve
	summaries  map[*ssa.Function]func(args []V) V
}

type Event struct {
	kind string
	pos  string
	msg  string
	ctx  *Ctx
}

// fresh yields a new number for each call.
func (it *Interp) fresh() int {
	it.freshCount++
	return it.freshCount
}

func newInterp(p *Program) *Interp {
	it := &Interp{prog: p, maxStep: 6000000, globals: map[*ssa.Global]*Obj{}, visited: map[*ssa.Function]int{}, mapRanges: map[string]int{}}
	it.st = &State{mods: map[*Obj]V{}, ctx: &Ctx{}}
	it.fr = &Frame{env: map[ssa.Value]V{}, panics: &[]panicExit{}}
	return it
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]V
	defers []deferred
	panics *[]panicExit
	pos    token.Pos
	parent *Frame
	rec    *recoverCell // set for functions called by RunDefers
}

type recoverCell struct {
	val       V
	active    bool
	recovered bool
}

type deferred struct {
	fv   V
	args []V
	call *ssa.CallCommon
}

type panicExit struct {
	st     *State
	ctx    *Ctx
	val    V
	msg    string
	pos    string
	trace  string
	defers []deferred
	env    map[ssa.Value]V
	goexit bool
}

type pathEnd struct{}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]V, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

func (it *Interp) ctx() *Ctx { return it.st.ctx }

func (it *Interp) pos() string {
	for f := it.fr; f != nil; f = f.parent {
		if f.pos.IsValid() {
			p := it.prog.fset.Position(f.pos)
			if strings.HasPrefix(p.Filename, it.prog.root) {
				return shortPos(it.prog, p)
			}
		}
	}
	return "?"
}

func shortPos(p *Program, q token.Position) string {
	return strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.root), "/") + ":" + strconv.Itoa(q.Line)
}

func (it *Interp) trace() string {
	var s []string
	for f := it.fr; f != nil && f.fn != nil; f = f.parent {
		s = append(s, f.fn.RelString(nil))
	}
	return strings.Join(s, " <- ")
}

// throw records a panic of the analysed program on this path and abandons the path.
func (it *Interp) throw(format string, a ...any) {
	it.throwVal(Iface{typ: types.Typ[types.String], val: &SymStr{name: "panic", opaque: true}}, fmt.Sprintf(format, a...), false)
}

func (it *Interp) throwVal(v V, msg string, goexit bool) {
	*it.fr.panics = append(*it.fr.panics, panicExit{
		st: it.st, ctx: it.st.ctx, val: v, msg: msg, pos: it.pos(), trace: it.trace(),
		defers: append([]deferred(nil), it.fr.defers...), env: it.fr.env, goexit: goexit,
	})
	panic(pathEnd{})
}

// catching runs f and reports whether the path survived.
func (it *Interp) catching(f func()) (alive bool) {
	fr, depth := it.fr, it.depth
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				it.fr, it.depth = fr, depth
				alive = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (it *Interp) event(kind, msg string) {
	it.events = append(it.events, Event{kind, it.pos(), msg, it.st.ctx})
}

// memory ---------------------------------------------------------------------

func newObj(name string, t types.Type) *Obj {
	objCount++
	return &Obj{id: objCount, name: name, typ: t}
}

func (it *Interp) alloc(name string, t types.Type, v V) *Obj {
	o := newObj(name, t)
	it.st.mods[o] = v
	return o
}

func (it *Interp) content(o *Obj) V {
	if it.access != nil && !it.access.reads[o] {
		it.access.reads[o] = true
		it.access.where[o] = it.pos()
	}
	v, ok := it.st.get(o)
	if !ok {
		unsupported("read of an unknown object %v", o.name)
	}
	return v
}

func (it *Interp) setContent(o *Obj, v V) {
	if it.access != nil && !it.access.writes[o] {
		it.access.writes[o] = true
		it.access.where[o] = it.pos()
	}
	it.st.mods[o] = v
}

// access records the abstract objects an operation reads and writes.
type access struct {
	reads, writes map[*Obj]bool
	where         map[*Obj]string
	first         int // objects created later are private to the operation
}

func (it *Interp) recording(f func()) *access {
	a := &access{reads: map[*Obj]bool{}, writes: map[*Obj]bool{}, where: map[*Obj]string{}, first: objCount}
	save := it.access
	it.access = a
	f()
	it.access = save
	return a
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	parts := strings.Split(p, ",")
	r := make([]int, len(parts))
	for i, s := range parts {
		r[i], _ = strconv.Atoi(s)
	}
	return r
}

func addPath(p string, i int) string {
	if p == "" {
		return strconv.Itoa(i)
	}
	return p + "," + strconv.Itoa(i)
}

func (it *Interp) getPath(v V, path []int) V {
	for n, i := range path {
		rest := path[n:]
		switch x := v.(type) {
		case Struct:
			v = x.f[i]
		case Array:
			if i < 0 || i >= len(x.e) {
				it.throw("index %d out of range [0,%d)", i, len(x.e))
			}
			v = x.e[i]
		case *Ite:
			return it.ctx().apply(func(_ *Ctx, l []V) V { return it.getPath(l[0], rest) }, x)
		case Dead:
			return x
		default:
			unsupported("path into %T", v)
		}
	}
	return v
}

func (it *Interp) setPath(v V, path []int, nv V) V {
	if len(path) == 0 {
		return nv
	}
	i := path[0]
	switch x := v.(type) {
	case Struct:
		f := append([]V(nil), x.f...)
		f[i] = it.setPath(f[i], path[1:], nv)
		return Struct{f}
	case Array:
		if i < 0 || i >= len(x.e) {
			it.throw("index %d out of range [0,%d)", i, len(x.e))
		}
		e := append([]V(nil), x.e...)
		e[i] = it.setPath(e[i], path[1:], nv)
		return Array{e}
	case *Ite:
		return it.ctx().mkOrd(x.c, it.setPath(x.t, path, nv), it.setPath(x.e, path, nv))
	case Dead:
		return x
	}
	unsupported("store path into %T", v)
	return nil
}

func (it *Interp) load(p V) V {
	return it.lift(p, func(l V) V {
		q, ok := l.(Ptr)
		if !ok {
			unsupported("load through %T", l)
		}
		if q.o == nil {
			it.throw("nil pointer dereference")
		}
		return it.ctx().restrict(it.getPath(it.content(q.o), splitPath(q.path)))
	})
}

func (it *Interp) store(p, v V) {
	it.lift(p, func(l V) V {
		q, ok := l.(Ptr)
		if !ok {
			unsupported("store through %T", l)
		}
		if q.o == nil {
			it.throw("nil pointer dereference (store)")
		}
		it.setContent(q.o, it.setPath(it.content(q.o), splitPath(q.path), v))
		return nil
	})
}

// lift evaluates f for every leaf of v, in a separate state per gate, and merges value and state.
func (it *Interp) lift(v V, f func(leaf V) V) V {
	v = it.ctx().restrict(v)
	x, ok := v.(*Ite)
	if !ok {
		if _, dead := v.(Dead); dead {
			panic(pathEnd{})
		}
		return f(v)
	}
	return it.forkVal(x.c, func(b bool) V { return it.lift(cof(x, x.c, b), f) })
}

// lift2 is lift for two gated operands.
func (it *Interp) lift2(v, w V, f func(a, b V) V) V {
	return it.lift(v, func(a V) V { return it.lift(w, func(b V) V { return f(a, b) }) })
}

func (it *Interp) forkVal(a *Atom, f func(b bool) V) V {
	it.forks++
	base := it.st
	fr := it.fr
	var res [2]V
	var sts [2]*State
	for i, b := range []bool{true, false} {
		it.st = base.child(base.ctx.with(a, b))
		it.fr = fr
		ok := it.catching(func() { res[i] = f(b) })
		if ok {
			sts[i] = it.st
		}
	}
	it.st = base
	it.fr = fr
	switch {
	case sts[0] == nil && sts[1] == nil:
		panic(pathEnd{})
	case sts[0] == nil:
		it.adopt(sts[1])
		return res[1]
	case sts[1] == nil:
		it.adopt(sts[0])
		return res[0]
	}
	it.mergeInto(atomBool(a), sts[0], sts[1])
	if res[0] == nil && res[1] == nil {
		return nil
	}
	return it.ctx().ite(atomBool(a), res[0], res[1])
}

// adopt makes the child state (and its assumptions) the current one.
func (it *Interp) adopt(s *State) {
	base := it.st
	for o, v := range collectMods(s, base) {
		base.mods[o] = v
	}
	base.ctx = s.ctx
}

func collectMods(s, base *State) map[*Obj]V {
	r := map[*Obj]V{}
	for x := s; x != nil && x != base; x = x.parent {
		for o, v := range x.mods {
			if _, ok := r[o]; !ok {
				r[o] = v
			}
		}
	}
	return r
}

func (it *Interp) mergeInto(g V, a, b *State) {
	base := it.st
	ma, mb := collectMods(a, base), collectMods(b, base)
	done := map[*Obj]bool{}
	merge := func(o *Obj) {
		if done[o] {
			return
		}
		done[o] = true
		va, okA := a.get(o)
		vb, okB := b.get(o)
		switch {
		case !okA:
			base.mods[o] = vb
		case !okB:
			base.mods[o] = va
		default:
			base.mods[o] = base.ctx.ite(g, va, vb)
		}
	}
	for o := range ma {
		merge(o)
	}
	for o := range mb {
		merge(o)
	}
}

// functions --------------------------------------------------------------------

type exit struct {
	st   *State
	fr   *Frame
	ret  V
	stop bool
}

var ipdomCache = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}

// ipdoms computes immediate postdominators; blocks that end in a panic don't count as exits.
func ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if r, ok := ipdomCache[fn]; ok {
		return r
	}
	n := len(fn.Blocks)
	exitID := n
	succs := make([][]int, n)
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				succs[i] = append(succs[i], exitID)
			}
		}
	}
	preds := make([][]int, n+1)
	for i, ss := range succs {
		for _, s := range ss {
			preds[s] = append(preds[s], i)
		}
	}
	// reverse postorder on the reversed graph
	seen := make([]bool, n+1)
	var order []int
	var dfs func(int)
	dfs = func(x int) {
		seen[x] = true
		for _, p := range preds[x] {
			if !seen[p] {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(exitID)
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exitID] = exitID
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			x := order[k]
			if x == exitID {
				continue
			}
			nd := -1
			for _, s := range succs[x] {
				if num[s] < 0 || idom[s] < 0 {
					continue
				}
				if nd < 0 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd >= 0 && idom[x] != nd {
				idom[x] = nd
				changed = true
			}
		}
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		if idom[i] >= 0 && idom[i] != exitID {
			r[b] = fn.Blocks[idom[i]]
		}
	}
	ipdomCache[fn] = r
	return r
}

// isMethodWrapper tells if fn is the compiler's closure of a method value or expression; it only
// calls the method.
func isMethodWrapper(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk for") ||
		strings.HasPrefix(fn.Synthetic, "wrapper for")
}

func (it *Interp) callFn(fn *ssa.Function, args []V, bind []V, rec *recoverCell) V {
	if m := lookupModel(fn); m != nil {
		return m(it, fn, args)
	}
	if m := it.summaries[fn]; m != nil {
		return m(args)
	}
	if len(fn.Blocks) == 0 {
		it.prog.ensureBuilt(fn)
	}
	if len(fn.Blocks) == 0 {
		unsupported("no source or model for %v (called at %v)", fn.String(), it.pos())
	}
	if it.prog.isForeign(fn) && !it.prog.interpretable(fn) && !isMethodWrapper(fn) {
		unsupported("no model for %v (called at %v)", fn.String(), it.pos())
	}
	it.visited[fn]++
	it.depth++
	if it.depth > 120 {
		unsupported("call depth limit in %v", fn)
	}
	caller := it.fr
	var panics []panicExit
	fr := &Frame{fn: fn, env: make(map[ssa.Value]V, 64), panics: &panics, parent: caller, rec: rec, pos: fn.Pos()}
	for i, p := range fn.Params {
		if i >= len(args) {
			unsupported("missing argument for %v", fn)
		}
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	base := it.st
	it.st = base.child(base.ctx)
	it.fr = fr
	var ex *exit
	alive := it.catching(func() { ex = it.run(fr, fn.Blocks[0], nil, nil) })
	if !alive {
		ex = nil
	}
	entryLits := len(base.ctx.lits)
	it.fr = caller
	it.depth--
	// Deferred functions of panicking paths
	var propagate []panicExit
	type recd struct {
		guard V
		st    *State
		val   V
	}
	var recs []recd
	for _, px := range panics {
		if len(px.defers) == 0 {
			propagate = append(propagate, px)
			continue
		}
		cell := &recoverCell{val: px.val, active: !px.goexit}
		it.st = px.st
		dfr := &Frame{fn: fn, env: px.env, panics: &propagate, parent: caller, pos: fr.pos}
		it.fr = dfr
		var rv V
		ok := it.catching(func() {
			for i := len(px.defers) - 1; i >= 0; i-- {
				d := px.defers[i]
				it.callValue(d.fv, d.args, cell)
			}
			if cell.recovered {
				if fn.Recover != nil {
					e2 := it.run(dfr, fn.Recover, nil, nil)
					if e2 == nil {
						panic(pathEnd{})
					}
					it.st = e2.st
					rv = e2.ret
				} else {
					rv = zeroResults(it, fn)
				}
			}
		})
		it.fr = caller
		if !ok {
			continue
		}
		if !cell.recovered {
			px.st = it.st
			px.defers = nil
			propagate = append(propagate, px)
			continue
		}
		g := V(Bool(true))
		for i := len(px.ctx.lits) - 1; i >= entryLits; i-- {
			l := px.ctx.lits[i]
			lv := atomBool(l.a)
			if !l.v {
				lv = (&Ctx{}).not(lv)
			}
			g = (&Ctx{}).and(lv, g)
		}
		recs = append(recs, recd{g, it.st, rv})
	}
	for _, px := range propagate {
		px.defers = append([]deferred(nil), caller.defers...)
		px.env = caller.env
		*caller.panics = append(*caller.panics, px)
	}
	it.st = base
	if ex == nil && len(recs) == 0 {
		panic(pathEnd{})
	}
	var val V
	var cur *State
	if ex != nil {
		cur, val = ex.st, ex.ret
	}
	for _, r := range recs {
		if cur == nil {
			cur, val = r.st, r.val
			continue
		}
		// merge under the guard
		m := base.child(base.ctx)
		save := it.st
		it.st = base
		tmp := &Interp{}
		*tmp = *it
		tmp.st = m
		tmp.mergeFrom(r.guard, r.st, cur, base)
		it.st = save
		val = base.ctx.ite(r.guard, r.val, val)
		cur = m
	}
	it.adopt(cur)
	if len(recs) > 0 {
		base.ctx = &Ctx{lits: base.ctx.lits[:min(len(base.ctx.lits), entryLits)]}
	}
	return val
}

func (it *Interp) mergeFrom(g V, a, b, base *State) {
	ma, mb := collectMods(a, base), collectMods(b, base)
	for _, m := range []map[*Obj]V{ma, mb} {
		for o := range m {
			if _, ok := it.st.mods[o]; ok {
				continue
			}
			va, okA := a.get(o)
			vb, okB := b.get(o)
			switch {
			case !okA:
				it.st.mods[o] = vb
			case !okB:
				it.st.mods[o] = va
			default:
				it.st.mods[o] = base.ctx.ite(g, va, vb)
			}
		}
	}
}

func zeroResults(it *Interp, fn *ssa.Function) V {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return it.zero(rs.At(0).Type())
	}
	var e []V
	for i := 0; i < rs.Len(); i++ {
		e = append(e, it.zero(rs.At(i).Type()))
	}
	return Tuple{e}
}

func (it *Interp) callValue(fv V, args []V, rec *recoverCell) V {
	return it.lift(fv, func(l V) V {
		f, ok := l.(Func)
		if !ok {
			unsupported("call of %T", l)
		}
		if f.nat != nil {
			return f.nat.fn(it, args)
		}
		if f.fn == nil {
			it.throw("call of a nil function")
		}
		var bind []V
		if f.bind != nil {
			bind = it.content(f.bind).(Tuple).e
		}
		return it.callFn(f.fn, args, bind, rec)
	})
}

// run executes from block b (coming from pred) until stop is reached or the function returns.
func (it *Interp) run(fr *Frame, b, pred, stop *ssa.BasicBlock) *exit {
	start := 0
	fromMerge := false
	for {
		if !fromMerge {
			// Phis are evaluated simultaneously
			var vals []V
			n := 0
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range b.Preds {
					if p == pred {
						vals = append(vals, it.get(fr, phi.Edges[i]))
						break
					}
				}
				n++
			}
			for i := 0; i < n; i++ {
				fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
			}
			start = n
			if b == stop {
				return &exit{st: it.st, fr: fr, stop: true}
			}
		} else if b == stop {
			return &exit{st: it.st, fr: fr, stop: true}
		}
		fromMerge = false
		next := (*ssa.BasicBlock)(nil)
		for i := start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			it.steps++
			checkBudget()
			if it.steps > it.maxStep {
				unsupported("step limit exceeded in %v", fr.fn)
			}
			if it.steps&1023 == 0 && !it.deadline.IsZero() && time.Now().After(it.deadline) {
				unsupported("too much time spent in %v", fr.fn)
			}
			if p := in.Pos(); p.IsValid() {
				fr.pos = p
			}
			switch in := in.(type) {
			case *ssa.If:
				c := it.ctx().restrict(it.get(fr, in.Cond))
				if bv, ok := c.(Bool); ok {
					if bv {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				if _, dead := c.(Dead); dead {
					panic(pathEnd{})
				}
				join := ipdoms(fr.fn)[b]
				it.branches++
				ex := it.fork(fr, c, b, join)
				if ex == nil {
					panic(pathEnd{})
				}
				if !ex.stop {
					return ex
				}
				fr.env = ex.fr.env
				fr.defers = ex.fr.defers
				it.fr = fr
				pred = nil
				b = join
				fromMerge = true
				n := 0
				for _, x := range b.Instrs {
					if _, ok := x.(*ssa.Phi); !ok {
						break
					}
					n++
				}
				start = n
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var ret V
				switch len(in.Results) {
				case 0:
				case 1:
					ret = it.get(fr, in.Results[0])
				default:
					var e []V
					for _, r := range in.Results {
						e = append(e, it.get(fr, r))
					}
					ret = Tuple{e}
				}
				return &exit{st: it.st, fr: fr, ret: ret}
			case *ssa.Panic:
				it.throwVal(it.get(fr, in.X), "explicit panic", false)
			default:
				it.exec(fr, in)
			}
			if fromMerge {
				break
			}
		}
		if fromMerge {
			continue
		}
		if next == nil {
			unsupported("block without successor in %v", fr.fn)
		}
		pred, b = b, next
		start = 0
	}
}

// fork analyses both sides of a branch up to the join block and merges the outcome.
func (it *Interp) fork(fr *Frame, cond V, b, join *ssa.BasicBlock) *exit {
	it.forks++
	x := cond.(*Ite)
	a := x.c
	base := it.st
	var exs [2]*exit
	for i, v := range []bool{true, false} {
		it.st = base.child(base.ctx.with(a, v))
		f2 := fr.clone()
		it.fr = f2
		alive := it.catching(func() {
			c2 := it.ctx().restrict(cof(x, a, v))
			switch cv := c2.(type) {
			case Bool:
				s := b.Succs[1]
				if cv {
					s = b.Succs[0]
				}
				exs[i] = it.run(f2, s, b, join)
			case *Ite:
				exs[i] = it.fork(f2, cv, b, join)
				if exs[i] == nil {
					panic(pathEnd{})
				}
			default:
				panic(pathEnd{})
			}
		})
		if !alive {
			exs[i] = nil
		}
	}
	it.st = base
	it.fr = fr
	p, q := exs[0], exs[1]
	switch {
	case p == nil && q == nil:
		return nil
	case p == nil:
		it.adopt(q.st)
		q.st = it.st
		return q
	case q == nil:
		it.adopt(p.st)
		p.st = it.st
		return p
	}
	if p.stop != q.stop {
		unsupported("inconsistent exits in %v", fr.fn)
	}
	g := atomBool(a)
	it.mergeInto(g, p.st, q.st)
	res := &exit{st: it.st, stop: p.stop, fr: fr}
	if !p.stop {
		if p.ret != nil || q.ret != nil {
			res.ret = it.ctx().ite(g, p.ret, q.ret)
		}
		return res
	}
	if len(p.fr.defers) != len(q.fr.defers) {
		unsupported("conditional defer in %v", fr.fn)
	}
	nf := fr.clone()
	nf.defers = p.fr.defers
	// Values defined before the branch change when the branch is part of a loop
	for v, old := range fr.env {
		x, y := p.fr.env[v], q.fr.env[v]
		if same(x, old) && same(y, old) {
			continue
		}
		nf.env[v] = it.mergeVals(g, x, y)
	}
	for _, in := range join.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nf.env[phi] = it.ctx().ite(g, p.fr.env[phi], q.fr.env[phi])
	}
	res.fr = nf
	return res
}

// mergeVals joins values of the same register; a value without a common representation becomes unusable.
func (it *Interp) mergeVals(g V, x, y V) (r V) {
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(Unsupported)
			if !ok {
				panic(e)
			}
			r = Unmerged{u.Msg}
		}
	}()
	return it.ctx().ite(g, x, y)
}

// Unmerged is a register whose value couldn't be joined; using it is unsupported.
type Unmerged struct{ msg string }

func (it *Interp) get(fr *Frame, v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return it.constVal(x)
	case *ssa.Function:
		return Func{fn: x}
	case *ssa.Builtin:
		unsupported("builtin %v as value", x)
	case *ssa.Global:
		return Ptr{o: it.global(x)}
	}
	r, ok := fr.env[v]
	if !ok {
		unsupported("undefined register %v in %v", v.Name(), fr.fn)
	}
	if u, ok := r.(Unmerged); ok {
		unsupported("register %v in %v has no joint value: %v", v.Name(), fr.fn, u.msg)
	}
	return r
}

func (it *Interp) global(g *ssa.Global) *Obj {
	if o, ok := it.globals[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := newObj(g.String(), t)
	it.globals[g] = o
	// Globals live in the root state
	root := it.st
	for root.parent != nil {
		root = root.parent
	}
	if g.Pkg != nil && g.Pkg.Pkg != nil && it.prog.isRepoPkg(g.Pkg.Pkg.Path()) {
		root.mods[o] = it.zero(t)
	} else if types.Identical(t, types.Universe.Lookup("error").Type()) {
		root.mods[o] = errValue(it, "global "+g.String(), nil)
	} else if v, ok := stdGlobal(it, g); ok {
		root.mods[o] = v
	} else {
		unsupported("access to package-level variable %v", g)
	}
	return o
}

// initPkg interprets the initialisers of the package-level variables of a package of the repository.
func (it *Interp) initPkg(p *ssa.Package) {
	init := p.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return
	}
	it.callFn(init, nil, nil, nil)
}

func (it *Interp) constVal(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return it.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return Str{constant.StringVal(c.Value)}
		case u.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Int(i)
			}
			return Num{constPoly(constRat(c.Value))}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if f == 0 {
				return Num{zeroPoly}
			}
			return Num{floatPoly(f)}
		}
	case *types.TypeParam:
	}
	unsupported("constant %v of type %v", c, t)
	return nil
}

func constRat(v constant.Value) *big.Rat {
	r, ok := new(big.Rat).SetString(v.ExactString())
	if !ok {
		unsupported("constant %v", v)
	}
	return r
}

func (it *Interp) zero(t types.Type) V {
	if n, ok := t.(*types.Named); ok {
		if k := nativeKind(n); k != "" {
			return nativeZero(k)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str{""}
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Num{zeroPoly}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Signature:
		return Func{}
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		f := make([]V, u.NumFields())
		for i := range f {
			f[i] = it.zero(u.Field(i).Type())
		}
		return Struct{f}
	case *types.Array:
		e := make([]V, u.Len())
		for i := range e {
			e[i] = it.zero(u.Elem())
		}
		return Array{e}
	case *types.Tuple:
		e := make([]V, u.Len())
		for i := range e {
			e[i] = it.zero(u.At(i).Type())
		}
		return Tuple{e}
	case *types.Chan:
		return Ptr{}
	}
	unsupported("zero value of %v", t)
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func toPoly(v V) *Poly {
	switch x := v.(type) {
	case Num:
		return x.p
	case Int:
		return intPoly(int64(x))
	}
	unsupported("number expected, got %T", v)
	return nil
}

// toInt resolves a possibly symbolic integer to a constant.
func toInt(v V) (int, bool) {
	switch x := v.(type) {
	case Int:
		return int(x), true
	case Num:
		if r, ok := x.p.constVal(); ok && r.IsInt() {
			return int(r.Num().Int64()), true
		}
	}
	return 0, false
}

func wrapInt(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Int8:
		return int64(int8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int16:
		return int64(int16(v))
	case types.Uint32:
		return int64(uint32(v))
	case types.Int32:
		return int64(int32(v))
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (it *Interp) exec(fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.env[x] = Ptr{o: it.alloc(x.Comment, t, it.zero(t))}
	case *ssa.Store:
		it.store(it.get(fr, x.Addr), it.get(fr, x.Val))
	case *ssa.UnOp:
		fr.env[x] = it.unop(fr, x)
	case *ssa.BinOp:
		fr.env[x] = it.binop(x.Op, x.X.Type(), it.get(fr, x.X), it.get(fr, x.Y), x.Type())
	case *ssa.FieldAddr:
		fr.env[x] = it.lift(it.get(fr, x.X), func(l V) V {
			p := l.(Ptr)
			if p.o == nil {
				it.throw("nil pointer dereference (field %d)", x.Field)
			}
			return Ptr{o: p.o, path: addPath(p.path, x.Field)}
		})
	case *ssa.Field:
		fr.env[x] = it.ctx().apply(func(_ *Ctx, l []V) V {
			s, ok := l[0].(Struct)
			if !ok {
				unsupported("field of %T", l[0])
			}
			return s.f[x.Field]
		}, it.get(fr, x.X))
	case *ssa.IndexAddr:
		fr.env[x] = it.indexAddr(it.get(fr, x.X), it.get(fr, x.Index), x.X.Type())
	case *ssa.Index:
		fr.env[x] = it.index(it.get(fr, x.X), it.get(fr, x.Index))
	case *ssa.Slice:
		fr.env[x] = it.slice(fr, x)
	case *ssa.MakeSlice:
		n := it.get(fr, x.Len)
		c := it.get(fr, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = it.lift2(n, c, func(n, c V) V {
			ln, ok1 := toInt(n)
			cp, ok2 := toInt(c)
			if !ok1 || !ok2 {
				unsupported("make with symbolic length")
			}
			if ln < 0 || cp < ln {
				it.throw("makeslice: len/cap out of range")
			}
			return it.newSlice(et, ln, cp)
		})
	case *ssa.MakeMap:
		fr.env[x] = MapRef{it.alloc("map", x.Type(), &MapVal{})}
	case *ssa.MapUpdate:
		it.mapUpdate(it.get(fr, x.Map), it.get(fr, x.Key), it.get(fr, x.Value))
	case *ssa.Lookup:
		fr.env[x] = it.lookup(fr, x)
	case *ssa.MakeInterface:
		fr.env[x] = Iface{typ: x.X.Type(), val: it.get(fr, x.X)}
	case *ssa.ChangeInterface:
		fr.env[x] = it.get(fr, x.X)
	case *ssa.ChangeType:
		fr.env[x] = it.get(fr, x.X)
	case *ssa.Convert:
		fr.env[x] = it.convert(it.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = it.convert(it.get(fr, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		fr.env[x] = it.typeAssert(it.get(fr, x.X), x.AssertedType, x.CommaOk)
	case *ssa.MakeClosure:
		var e []V
		for _, b := range x.Bindings {
			e = append(e, it.get(fr, b))
		}
		fr.env[x] = Func{fn: x.Fn.(*ssa.Function), bind: it.alloc("closure", nil, Tuple{e})}
	case *ssa.Extract:
		fr.env[x] = it.ctx().apply(func(_ *Ctx, l []V) V {
			t, ok := l[0].(Tuple)
			if !ok {
				unsupported("extract from %T", l[0])
			}
			return t.e[x.Index]
		}, it.get(fr, x.Tuple))
	case *ssa.Call:
		it.fr = fr
		fr.env[x] = it.call(fr, x.Common())
		it.fr = fr
	case *ssa.Defer:
		c := x.Common()
		if c.IsInvoke() {
			unsupported("deferred interface method call in %v", fr.fn)
		}
		var args []V
		for _, a := range c.Args {
			args = append(args, it.get(fr, a))
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			unsupported("deferred builtin %v", b.Name())
		}
		fr.defers = append(fr.defers, deferred{fv: it.get(fr, c.Value), args: args})
	case *ssa.RunDefers:
		ds := fr.defers
		fr.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			fr.defers = ds[:i]
			it.fr = fr
			it.callValue(ds[i].fv, ds[i].args, &recoverCell{val: Iface{}})
		}
		fr.defers = nil
		it.fr = fr
	case *ssa.Range:
		fr.env[x] = it.rangeIter(it.get(fr, x.X), x)
	case *ssa.Next:
		fr.env[x] = it.next(it.get(fr, x.Iter), x)
	case *ssa.SliceToArrayPointer:
		fr.env[x] = it.lift(it.get(fr, x.X), func(l V) V {
			s := l.(Slice)
			unsupported("slice to array pointer %v", s)
			return nil
		})
	case *ssa.Go:
		it.event("go", "goroutine started")
		unsupported("go statement at %v", it.pos())
	default:
		unsupported("instruction %T in %v", in, fr.fn)
	}
}

func (it *Interp) unop(fr *Frame, x *ssa.UnOp) V {
	v := it.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return it.load(v)
	case token.SUB:
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			if i, ok := l[0].(Int); ok {
				return Int(wrapInt(-int64(i), x.Type()))
			}
			return Num{toPoly(l[0]).Neg()}
		}, v)
	case token.NOT:
		return it.ctx().not(v)
	case token.XOR:
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			if i, ok := l[0].(Int); ok {
				return Int(wrapInt(^int64(i), x.Type()))
			}
			unsupported("complement of %T", l[0])
			return nil
		}, v)
	}
	unsupported("unary %v", x.Op)
	return nil
}

func (it *Interp) binop(op token.Token, t types.Type, a, b V, rt types.Type) V {
	switch op {
	case token.EQL:
		return it.equal(a, b, t)
	case token.NEQ:
		return it.ctx().not(it.equal(a, b, t))
	}
	if op == token.QUO && isFloat(t) {
		// division: note divisors that aren't known to be non-zero
		it.ctx().leaves(b, func(c *Ctx, l V) { it.noteDivisor(c, toPoly(l)) })
	}
	if (op == token.QUO || op == token.REM) && isInt(t) {
		return it.lift2(a, b, func(x, y V) V {
			i, ok1 := toInt(x)
			j, ok2 := toInt(y)
			if !ok1 || !ok2 {
				unsupported("symbolic integer division")
			}
			if j == 0 {
				it.throw("integer divide by zero")
			}
			if op == token.QUO {
				return Int(i / j)
			}
			return Int(i % j)
		})
	}
	return it.ctx().apply(func(c *Ctx, l []V) V {
		x, y := l[0], l[1]
		if bx, ok := x.(Bool); ok {
			by := y.(Bool)
			switch op {
			case token.AND, token.LAND:
				return bx && by
			case token.OR, token.LOR:
				return bx || by
			}
		}
		if ix, ok := x.(Int); ok {
			if iy, ok := y.(Int); ok {
				p, q := int64(ix), int64(iy)
				switch op {
				case token.ADD:
					return Int(wrapInt(p+q, rt))
				case token.SUB:
					return Int(wrapInt(p-q, rt))
				case token.MUL:
					return Int(wrapInt(p*q, rt))
				case token.LSS:
					if isUnsigned(t) {
						return Bool(uint64(p) < uint64(q))
					}
					return Bool(p < q)
				case token.LEQ:
					if isUnsigned(t) {
						return Bool(uint64(p) <= uint64(q))
					}
					return Bool(p <= q)
				case token.GTR:
					if isUnsigned(t) {
						return Bool(uint64(p) > uint64(q))
					}
					return Bool(p > q)
				case token.GEQ:
					if isUnsigned(t) {
						return Bool(uint64(p) >= uint64(q))
					}
					return Bool(p >= q)
				case token.AND:
					return Int(p & q)
				case token.OR:
					return Int(p | q)
				case token.XOR:
					return Int(wrapInt(p^q, rt))
				case token.AND_NOT:
					return Int(p &^ q)
				case token.SHL:
					return Int(wrapInt(p<<uint64(q), rt))
				case token.SHR:
					if isUnsigned(t) {
						return Int(int64(uint64(p) >> uint64(q)))
					}
					return Int(p >> uint64(q))
				}
			}
		}
		switch x.(type) {
		case Str, *SymStr:
			return it.strOp(c, op, x, y)
		}
		p, q := toPoly(x), toPoly(y)
		switch op {
		case token.ADD:
			return Num{p.Add(q)}
		case token.SUB:
			return Num{p.Sub(q)}
		case token.MUL:
			return Num{p.Mul(q)}
		case token.QUO:
			if q.IsZero() {
				if it.anyDiv {
					return Num{sym(fmt.Sprintf("quotient#%d", it.fresh()))}
				}
				return Dead{} // noted above as an event
			}
			return Num{p.Div(q)}
		case token.LSS:
			return c.lt0(p.Sub(q))
		case token.GTR:
			return c.lt0(q.Sub(p))
		case token.LEQ:
			return c.not(c.lt0(q.Sub(p)))
		case token.GEQ:
			return c.not(c.lt0(p.Sub(q)))
		}
		unsupported("binary %v on %T", op, x)
		return nil
	}, a, b)
}

func (it *Interp) noteDivisor(c *Ctx, p *Poly) {
	if it.anyDiv {
		return
	}
	if s, ok := c.sign(p); ok && s != 0 {
		return
	}
	if t, ok := p.single(); ok {
		good := true
		for _, e := range t.m {
			if !natoms[e.a].nz {
				good = false
			}
		}
		if good {
			return
		}
	}
	it.events = append(it.events, Event{"div", it.pos(), "divisor may be zero: " + p.String(), c})
}

func (it *Interp) strOp(c *Ctx, op token.Token, x, y V) V {
	a, ok1 := x.(Str)
	b, ok2 := y.(Str)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return Str{a.s + b.s}
		case token.LSS:
			return Bool(a.s < b.s)
		case token.LEQ:
			return Bool(a.s <= b.s)
		case token.GTR:
			return Bool(a.s > b.s)
		case token.GEQ:
			return Bool(a.s >= b.s)
		}
	}
	if op == token.ADD {
		if ok1 && a.s == "" {
			return y
		}
		if ok2 && b.s == "" {
			return x
		}
		return &SymStr{name: "text", opaque: true}
	}
	// ordering of unknown strings
	key := fmt.Sprintf("strlt:%s|%s", strKey(x), strKey(y))
	lt := func(x, y V, k string) V {
		return c.atomV(internAtom(k, func() *Atom { return &Atom{kind: "opaque", name: strKey(x) + " < " + strKey(y)} }))
	}
	_ = key
	eq := it.strEq(c, x, y)
	less := func(x, y V) V {
		// keep one atom per unordered pair
		kx, ky := strKey(x), strKey(y)
		if kx < ky {
			return c.and(c.not(eq), lt(x, y, "strlt:"+kx+"|"+ky))
		}
		return c.and(c.not(eq), c.not(lt(y, x, "strlt:"+ky+"|"+kx)))
	}
	switch op {
	case token.LSS:
		return less(x, y)
	case token.GTR:
		return less(y, x)
	case token.LEQ:
		return c.not(less(y, x))
	case token.GEQ:
		return c.not(less(x, y))
	}
	unsupported("string operation %v", op)
	return nil
}

func strKey(v V) string {
	switch x := v.(type) {
	case Str:
		return "c:" + x.s
	case *SymStr:
		return fmt.Sprintf("s:%v@%p", x.name, x)
	}
	return "?"
}

func (it *Interp) strEq(c *Ctx, x, y V) V {
	a, ok1 := x.(Str)
	b, ok2 := y.(Str)
	switch {
	case ok1 && ok2:
		return Bool(a.s == b.s)
	case ok1:
		return symEq(c, y.(*SymStr), a.s)
	case ok2:
		return symEq(c, x.(*SymStr), b.s)
	}
	s, t := x.(*SymStr), y.(*SymStr)
	if s == t {
		return Bool(true)
	}
	if jdataOf[s] != nil || jdataOf[t] != nil {
		unsupported("comparison of document text")
	}
	k1, k2 := strKey(s), strKey(t)
	if k2 < k1 {
		s, t, k1, k2 = t, s, k2, k1
	}
	return c.atomV(internAtom("seq:"+k1+"|"+k2, func() *Atom { return &Atom{kind: "streq", s: s, s2: t} }))
}

func symEq(c *Ctx, s *SymStr, k string) V {
	if len(k) < s.minLen {
		return Bool(false)
	}
	if d := jdataOf[s]; d != nil {
		if f := d.n.firstByte(); k == "" || (f != 0 && k[0] != f) {
			return Bool(false)
		}
		if d.n.kind == "num" && k[0] != '-' && (k[0] < '0' || k[0] > '9') {
			return Bool(false)
		}
		unsupported("comparison of document text with %q", k)
	}
	return c.atomV(internAtom("seq:"+strKey(s)+"|c:"+k, func() *Atom { return &Atom{kind: "streq", s: s, s2: k} }))
}

func (it *Interp) equal(a, b V, t types.Type) V {
	return it.ctx().apply(func(c *Ctx, l []V) V { return it.eqLeaf(c, l[0], l[1]) }, a, b)
}

func (it *Interp) eqLeaf(c *Ctx, a, b V) V {
	if ia, ok := a.(*Ite); ok {
		_ = ia
		return c.apply(func(c *Ctx, l []V) V { return it.eqLeaf(c, l[0], l[1]) }, a, b)
	}
	if _, ok := b.(*Ite); ok {
		return c.apply(func(c *Ctx, l []V) V { return it.eqLeaf(c, l[0], l[1]) }, a, b)
	}
	switch x := a.(type) {
	case Bool:
		return Bool(x == b.(Bool))
	case Int:
		if y, ok := b.(Int); ok {
			return Bool(x == y)
		}
		return c.eq0(toPoly(a).Sub(toPoly(b)))
	case Num:
		return c.eq0(toPoly(a).Sub(toPoly(b)))
	case Str, *SymStr:
		return it.strEq(c, a, b)
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return Bool(x == y)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("comparison of interface with %T", b)
		}
		if x.typ == nil || y.typ == nil {
			return Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return Bool(false)
		}
		return it.eqLeaf(c, x.val, y.val)
	case Struct:
		r := V(Bool(true))
		y := b.(Struct)
		for i := range x.f {
			r = c.and(r, it.eqLeaf(c, x.f[i], y.f[i]))
		}
		return r
	case Array:
		r := V(Bool(true))
		y := b.(Array)
		for i := range x.e {
			r = c.and(r, it.eqLeaf(c, x.e[i], y.e[i]))
		}
		return r
	case Slice:
		if _, ok := b.(*JData); ok && x.o == nil {
			return Bool(false)
		}
		if y, ok := b.(Slice); ok && (x.o == nil || y.o == nil) {
			return Bool(x.o == nil && y.o == nil)
		}
	case MapRef:
		if y, ok := b.(MapRef); ok {
			return Bool(x == y)
		}
	case Func:
		if y, ok := b.(Func); ok && (x == (Func{}) || y == (Func{})) {
			return Bool(x == y)
		}
	case *NativeObj, *JData, *Opaque:
		if y, ok := b.(Slice); ok && y.o == nil {
			return Bool(false)
		}
		if a == b {
			return Bool(true)
		}
		if _, ok := a.(*NativeObj); ok {
			return Bool(false)
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (it *Interp) newSlice(et types.Type, ln, cp int) Slice {
	if cp > 100000 {
		unsupported("slice too large")
	}
	e := make([]V, cp)
	for i := range e {
		e[i] = it.zero(et)
	}
	return Slice{o: it.alloc("slice", et, Array{e}), len: ln, cap: cp}
}

func (it *Interp) sliceOf(et types.Type, vals []V) Slice {
	return Slice{o: it.alloc("slice", et, Array{append([]V(nil), vals...)}), len: len(vals), cap: len(vals)}
}

func (it *Interp) elems(s Slice) []V {
	if s.o == nil {
		return nil
	}
	v := it.getPath(it.content(s.o), splitPath(s.path))
	a, ok := v.(Array)
	if !ok {
		unsupported("slice backing %T", v)
	}
	return a.e[s.off : s.off+s.len]
}

func (it *Interp) indexAddr(x, i V, t types.Type) V {
	return it.lift2(x, i, func(x, i V) V {
		n, ok := toInt(i)
		if !ok {
			unsupported("symbolic index at %v", it.pos())
		}
		switch s := x.(type) {
		case *JData:
			if f := s.n.firstByte(); n == 0 && f != 0 {
				return Ptr{o: it.alloc("byte", types.Typ[types.Uint8], Int(f))}
			}
			unsupported("byte access into a document")
		case Slice:
			if n < 0 || n >= s.len {
				it.throw("index out of range [%d] with length %d", n, s.len)
			}
			return Ptr{o: s.o, path: addPath(s.path, s.off+n)}
		case Ptr:
			if s.o == nil {
				it.throw("nil pointer dereference (array)")
			}
			at := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if n < 0 || int64(n) >= at.Len() {
				it.throw("index out of range [%d] with length %d", n, at.Len())
			}
			return Ptr{o: s.o, path: addPath(s.path, n)}
		}
		unsupported("index of %T", x)
		return nil
	})
}

func (it *Interp) index(x, i V) V {
	return it.lift2(x, i, func(x, i V) V {
		n, ok := toInt(i)
		if !ok {
			unsupported("symbolic index at %v", it.pos())
		}
		switch s := x.(type) {
		case Array:
			if n < 0 || n >= len(s.e) {
				it.throw("index out of range [%d] with length %d", n, len(s.e))
			}
			return s.e[n]
		case Str:
			if n < 0 || n >= len(s.s) {
				it.throw("index out of range [%d] with length %d", n, len(s.s))
			}
			return Int(s.s[n])
		}
		unsupported("index of %T", x)
		return nil
	})
}

func (it *Interp) slice(fr *Frame, x *ssa.Slice) V {
	opt := func(v ssa.Value) V {
		if v == nil {
			return Int(-1)
		}
		return it.get(fr, v)
	}
	return it.lift(it.get(fr, x.X), func(b V) V {
		return it.lift2(opt(x.Low), opt(x.High), func(lo, hi V) V {
			return it.lift(opt(x.Max), func(mx V) V {
				l, ok1 := toInt(lo)
				h, ok2 := toInt(hi)
				m, ok3 := toInt(mx)
				if !ok1 || !ok2 || !ok3 {
					unsupported("symbolic slice bounds at %v", it.pos())
				}
				if x.Low == nil {
					l = 0
				}
				switch s := b.(type) {
				case Str:
					if x.High == nil {
						h = len(s.s)
					}
					if l < 0 || h < l || h > len(s.s) {
						it.throw("slice bounds out of range")
					}
					return Str{s.s[l:h]}
				case *SymStr:
					return &SymStr{name: "text", opaque: true}
				case Slice:
					if x.High == nil {
						h = s.len
					}
					c := s.cap
					if x.Max != nil {
						c = m
					}
					if l < 0 || h < l || h > c || c > s.cap {
						it.throw("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap)
					}
					if s.o == nil {
						return Slice{}
					}
					return Slice{o: s.o, path: s.path, off: s.off + l, len: h - l, cap: c - l}
				case Ptr:
					if s.o == nil {
						it.throw("nil pointer dereference (slice of array)")
					}
					n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
					if x.High == nil {
						h = n
					}
					c := n
					if x.Max != nil {
						c = m
					}
					if l < 0 || h < l || h > c || c > n {
						it.throw("slice bounds out of range")
					}
					return Slice{o: s.o, path: s.path, off: l, len: h - l, cap: c - l}
				}
				unsupported("slice of %T", b)
				return nil
			})
		})
	})
}

// maps -----------------------------------------------------------------------

func (it *Interp) mapUpdate(m, k, v V) {
	it.lift2(m, k, func(ml, k V) V {
		r := ml.(MapRef)
		if r.o == nil {
			it.throw("assignment to entry in nil map")
		}
		it.lift(it.content(r.o), func(cv V) V {
			mv := cv.(*MapVal)
			c := it.ctx()
			n := &MapVal{}
			hit := V(Bool(false)) // key already stored
			for _, e := range mv.ents {
				eq := c.and(e.has, it.eqLeaf(c, e.k, k))
				n.ents = append(n.ents, MapEnt{e.k, c.ite(eq, v, e.v), e.has})
				hit = c.or(hit, eq)
			}
			if b, ok := hit.(Bool); !ok || !bool(b) {
				// A dead entry with the same key can be revived
				n.ents = append(n.ents, MapEnt{k, v, c.not(hit)})
			}
			it.setContent(r.o, n)
			return nil
		})
		return nil
	})
}

func (it *Interp) mapGet(m, k V, zero V) (V, V) {
	t := it.lift2(m, k, func(ml, k V) V {
		r, ok := ml.(MapRef)
		if !ok {
			unsupported("lookup in %T", ml)
		}
		if r.o == nil {
			return Tuple{[]V{zero, Bool(false)}}
		}
		return it.lift(it.content(r.o), func(cv V) V {
			mv := cv.(*MapVal)
			c := it.ctx()
			val, ok := zero, V(Bool(false))
			for i := len(mv.ents) - 1; i >= 0; i-- {
				e := mv.ents[i]
				eq := c.and(e.has, it.eqLeaf(c, e.k, k))
				val = c.ite(eq, e.v, val)
				ok = c.or(eq, ok)
			}
			return Tuple{[]V{val, ok}}
		})
	})
	c := it.ctx()
	return c.apply(func(_ *Ctx, l []V) V { return l[0].(Tuple).e[0] }, t),
		c.apply(func(_ *Ctx, l []V) V { return l[0].(Tuple).e[1] }, t)
}

func (it *Interp) lookup(fr *Frame, x *ssa.Lookup) V {
	m := it.get(fr, x.X)
	if isString(x.X.Type()) {
		return it.index(m, it.get(fr, x.Index))
	}
	mt := x.X.Type().Underlying().(*types.Map)
	v, ok := it.mapGet(m, it.get(fr, x.Index), it.zero(mt.Elem()))
	if x.CommaOk {
		return Tuple{[]V{v, ok}}
	}
	return v
}

func (it *Interp) mapLen(m V) V {
	return it.lift(m, func(l V) V {
		r := l.(MapRef)
		if r.o == nil {
			return Int(0)
		}
		return it.lift(it.content(r.o), func(cv V) V {
			c := it.ctx()
			n := V(Int(0))
			for _, e := range cv.(*MapVal).ents {
				n = c.apply(func(_ *Ctx, l []V) V {
					if l[0].(Bool) {
						return l[1].(Int) + 1
					}
					return l[1]
				}, e.has, n)
			}
			return n
		})
	})
}

func (it *Interp) mapDelete(m, k V) {
	it.lift2(m, k, func(ml, k V) V {
		r := ml.(MapRef)
		if r.o == nil {
			return nil
		}
		it.lift(it.content(r.o), func(cv V) V {
			c := it.ctx()
			n := &MapVal{}
			for _, e := range cv.(*MapVal).ents {
				has := c.and(e.has, c.not(it.eqLeaf(c, e.k, k)))
				if b, ok := has.(Bool); ok && !bool(b) {
					continue
				}
				n.ents = append(n.ents, MapEnt{e.k, e.v, has})
			}
			it.setContent(r.o, n)
			return nil
		})
		return nil
	})
}

// RangeIter iterates over the entries a map had when the range statement started. Entries deleted
// meanwhile are skipped; entries added meanwhile are not visited (Go permits either).
type RangeIter struct {
	isStr bool
	s     string
	m     *Obj
	pos   *Obj // current position: Int or gated Int
	keys  []MapEnt
	desc  string
}

func (it *Interp) rangeIter(v V, x *ssa.Range) V {
	return it.lift(v, func(l V) V {
		switch m := l.(type) {
		case Str:
			return &RangeIter{isStr: true, s: m.s, pos: it.alloc("iter", nil, Int(0))}
		case MapRef:
			ri := &RangeIter{m: m.o, pos: it.alloc("iter", nil, Int(0)), desc: it.pos()}
			if m.o != nil {
				return it.lift(it.content(m.o), func(cv V) V {
					r2 := *ri
					ents := append([]MapEnt(nil), cv.(*MapVal).ents...)
					if it.mapReverse {
						for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
							ents[i], ents[j] = ents[j], ents[i]
						}
					}
					if it.mapOrder != nil && len(ents) > 1 {
						for i, j := range it.mapOrder(len(ents)) {
							ents[i] = cv.(*MapVal).ents[j]
						}
					}
					r2.keys = ents
					it.mapRanges[r2.desc] = max(it.mapRanges[r2.desc], len(ents))
					return &r2
				})
			}
			return ri
		}
		unsupported("range over %T", l)
		return nil
	})
}

func (it *Interp) next(v V, x *ssa.Next) V {
	return it.lift(v, func(l V) V {
		ri := l.(*RangeIter)
		return it.lift(it.content(ri.pos), func(p V) V {
			pos := int(p.(Int))
			if ri.isStr {
				if pos >= len(ri.s) {
					return Tuple{[]V{Bool(false), Int(0), Int(0)}}
				}
				r, n := utf8.DecodeRuneInString(ri.s[pos:])
				it.setContent(ri.pos, Int(pos+n))
				return Tuple{[]V{Bool(true), Int(pos), Int(r)}}
			}
			zk, zv := V(Dead{}), V(Dead{})
			mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			zk, zv = it.zero(mt.Key()), it.zero(mt.Elem())
			return it.nextEnt(ri, pos, zk, zv)
		})
	})
}

func (it *Interp) nextEnt(ri *RangeIter, pos int, zk, zv V) V {
	if pos >= len(ri.keys) {
		it.setContent(ri.pos, Int(pos))
		return Tuple{[]V{Bool(false), zk, zv}}
	}
	e := ri.keys[pos]
	// current presence and value
	var cur V = Bool(false)
	var val V = e.v
	mv := it.content(ri.m)
	cur = it.ctx().apply(func(c *Ctx, l []V) V {
		for _, f := range l[0].(*MapVal).ents {
			if same(f.k, e.k) {
				return f.has
			}
		}
		return Bool(false)
	}, mv)
	val = it.ctx().apply(func(c *Ctx, l []V) V {
		for _, f := range l[0].(*MapVal).ents {
			if same(f.k, e.k) {
				return f.v
			}
		}
		return e.v
	}, mv)
	return it.lift(it.ctx().and(e.has, cur), func(h V) V {
		if h.(Bool) {
			it.setContent(ri.pos, Int(pos+1))
			return Tuple{[]V{Bool(true), e.k, it.ctx().restrict(val)}}
		}
		return it.nextEnt(ri, pos+1, zk, zv)
	})
}

// types ------------------------------------------------------------------------

func (it *Interp) typeAssert(v V, t types.Type, commaOk bool) V {
	isIface := types.IsInterface(t)
	res := func(l Iface) (V, bool) {
		if l.typ == nil {
			return nil, false
		}
		if isIface {
			if it.implements(l, t.Underlying().(*types.Interface)) {
				return l, true
			}
			return nil, false
		}
		if types.Identical(l.typ, t) {
			return l.val, true
		}
		return nil, false
	}
	if commaOk {
		return it.ctx().apply(func(_ *Ctx, l []V) V {
			f, isI := l[0].(Iface)
			if !isI {
				unsupported("type assertion on %T", l[0])
			}
			if r, ok := res(f); ok {
				return Tuple{[]V{r, Bool(true)}}
			}
			return Tuple{[]V{it.zero(t), Bool(false)}}
		}, v)
	}
	return it.lift(v, func(l V) V {
		f, isI := l.(Iface)
		if !isI {
			unsupported("type assertion on %T", l)
		}
		r, ok := res(f)
		if !ok {
			it.throw("interface conversion: %v is not %v", f.typ, t)
		}
		return r
	})
}

func (it *Interp) implements(l Iface, t *types.Interface) bool {
	if n, ok := l.val.(*NativeObj); ok {
		if n.implements != nil {
			return n.implements(t)
		}
		for i := 0; i < t.NumMethods(); i++ {
			if n.methods[t.Method(i).Name()] == nil {
				return false
			}
		}
		return true
	}
	return types.Implements(l.typ, t)
}

func (it *Interp) convert(v V, from, to types.Type) V {
	return it.ctx().apply(func(c *Ctx, l []V) V {
		x := l[0]
		switch {
		case isFloat(to):
			return Num{toPoly(x)}
		case isInt(to) && isInt(from):
			if i, ok := x.(Int); ok {
				return Int(wrapInt(int64(i), to))
			}
			return x
		case isInt(to) && isFloat(from):
			if r, ok := toPoly(x).constVal(); ok {
				q := new(big.Int).Quo(r.Num(), r.Denom())
				return Int(wrapInt(q.Int64(), to))
			}
			unsupported("conversion of a symbolic float to an integer at %v", it.pos())
		case isString(to) && isInt(from):
			if i, ok := x.(Int); ok {
				return Str{string(rune(i))}
			}
			return &SymStr{name: "text", opaque: true}
		case isString(to) && isString(from):
			return x
		case isString(to):
			// []byte -> string
			switch s := x.(type) {
			case *JData:
				return s.text()
			case Slice:
				b := make([]byte, 0, s.len)
				for _, e := range it.elems(s) {
					i, ok := e.(Int)
					if !ok {
						return &SymStr{name: "text", opaque: true}
					}
					b = append(b, byte(i))
				}
				return Str{string(b)}
			}
		case isString(from):
			if s, ok := x.(Str); ok {
				if sl, ok := to.Underlying().(*types.Slice); ok && isInt(sl.Elem()) {
					var e []V
					if sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
						for i := 0; i < len(s.s); i++ {
							e = append(e, Int(s.s[i]))
						}
					} else {
						for _, r := range s.s {
							e = append(e, Int(r))
						}
					}
					return it.sliceOf(sl.Elem(), e)
				}
			}
			if j, ok := x.(*SymStr); ok {
				if d := jdataOf[j]; d != nil {
					return d
				}
			}
		default:
			if types.Identical(from.Underlying(), to.Underlying()) {
				return x
			}
			if _, ok := to.Underlying().(*types.Pointer); ok {
				return x
			}
		}
		unsupported("conversion %v -> %v (%T)", from, to, x)
		return nil
	}, v)
}

// calls ------------------------------------------------------------------------

func (it *Interp) call(fr *Frame, c *ssa.CallCommon) V {
	var args []V
	for _, a := range c.Args {
		args = append(args, it.get(fr, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(fr, b.Name(), c, args)
	}
	if c.IsInvoke() {
		recv := it.get(fr, c.Value)
		return it.invoke(recv, c.Method, args)
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return it.callFn(f, args, nil, nil)
	}
	return it.callValue(it.get(fr, c.Value), args, nil)
}

func (it *Interp) invoke(recv V, m *types.Func, args []V) V {
	return it.lift(recv, func(l V) V {
		i, ok := l.(Iface)
		if !ok {
			unsupported("method call on %T", l)
		}
		if i.typ == nil {
			it.throw("method %v called on a nil interface", m.Name())
		}
		if n, ok := i.val.(*NativeObj); ok {
			f := n.methods[m.Name()]
			if f == nil {
				unsupported("native %v lacks method %v", n.name, m.Name())
			}
			return f(it, args)
		}
		fn := it.prog.method(i.typ, m)
		if fn == nil {
			if v, ok := it.nativeMethod(i, m.Name(), args); ok {
				return v
			}
			unsupported("no method %v on %v", m.Name(), i.typ)
		}
		return it.callFn(fn, append([]V{i.val}, args...), nil, nil)
	})
}

func (it *Interp) callMethod(recv V, name string, args ...V) V {
	// native or interpreted method on an interface value
	return it.lift(recv, func(l V) V {
		i := l.(Iface)
		if i.typ == nil {
			it.throw("method %v called on nil", name)
		}
		if n, ok := i.val.(*NativeObj); ok {
			f := n.methods[name]
			if f == nil {
				unsupported("native %v lacks method %v", n.name, name)
			}
			return f(it, args)
		}
		fn := it.prog.methodByName(i.typ, name)
		if fn == nil {
			if v, ok := it.nativeMethod(i, name, args); ok {
				return v
			}
			unsupported("no method %v on %v", name, i.typ)
		}
		return it.callFn(fn, append([]V{i.val}, args...), nil, nil)
	})
}

func (it *Interp) builtin(fr *Frame, name string, c *ssa.CallCommon, args []V) V {
	switch name {
	case "len", "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			return it.mapLen(args[0])
		}
		return it.lift(args[0], func(l V) V {
			switch s := l.(type) {
			case Slice:
				if name == "len" {
					return Int(s.len)
				}
				return Int(s.cap)
			case Str:
				return Int(len(s.s))
			case *SymStr:
				return it.symLen(s)
			case *JData:
				return s.length()
			case Array:
				return Int(len(s.e))
			case Ptr:
				return Int(c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			}
			unsupported("len of %T", l)
			return nil
		})
	case "append":
		return it.append(args[0], args[1], c.Args[0].Type())
	case "copy":
		return it.lift2(args[0], args[1], func(d, s V) V {
			dst := d.(Slice)
			var src []V
			switch x := s.(type) {
			case Slice:
				src = append([]V(nil), it.elems(x)...)
			case Str:
				for i := 0; i < len(x.s); i++ {
					src = append(src, Int(x.s[i]))
				}
			default:
				unsupported("copy from %T", s)
			}
			n := min(dst.len, len(src))
			if n > 0 {
				it.writeElems(dst, 0, src[:n])
			}
			return Int(n)
		})
	case "delete":
		it.mapDelete(args[0], args[1])
		return nil
	case "clear":
		it.lift(args[0], func(l V) V {
			switch s := l.(type) {
			case MapRef:
				if s.o != nil {
					it.setContent(s.o, &MapVal{})
				}
			case Slice:
				if s.len > 0 {
					et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
					z := make([]V, s.len)
					for i := range z {
						z[i] = it.zero(et)
					}
					it.writeElems(s, 0, z)
				}
			}
			return nil
		})
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			less := it.binop(op, t, a, r, types.Typ[types.Bool])
			r = it.ctx().ite(less, a, r)
		}
		return r
	case "recover":
		// applies to the frame that is running deferred calls
		if cell := fr.rec; cell != nil && cell.active {
			cell.active = false
			cell.recovered = true
			return cell.val
		}
		return Iface{}
	case "panic":
		it.throwVal(args[0], "explicit panic", false)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		return it.lift(args[0], func(l V) V {
			if p, ok := l.(Ptr); ok && p.o == nil {
				it.throw("value method called through a nil pointer")
			}
			return l
		})
	}
	unsupported("builtin %v", name)
	return nil
}

func (it *Interp) symLen(s *SymStr) V {
	key := fmt.Sprintf("len:%s", strKey(s))
	a, ok := symLens[key]
	if !ok {
		a = newAtom("len(" + s.name + ")")
		a.pos, a.nz = true, true
		symLens[key] = a
	}
	return it.ctx().ite(symEq(it.ctx(), s, ""), Int(0), Num{atomPoly(a)})
}

var symLens = map[string]*NAtom{}

func (it *Interp) writeElems(s Slice, at int, vals []V) {
	if s.o == nil {
		return
	}
	all := it.content(s.o)
	a := it.getPath(all, splitPath(s.path)).(Array)
	e := append([]V(nil), a.e...)
	for i, v := range vals {
		e[s.off+at+i] = v
	}
	it.setContent(s.o, it.setPath(all, splitPath(s.path), Array{e}))
}

func (it *Interp) append(a, b V, t types.Type) V {
	et := t.Underlying().(*types.Slice).Elem()
	return it.lift2(a, b, func(x, y V) V {
		dst, ok := x.(Slice)
		if !ok {
			unsupported("append to %T", x)
		}
		var add []V
		switch s := y.(type) {
		case Slice:
			add = append([]V(nil), it.elems(s)...)
		case Str:
			for i := 0; i < len(s.s); i++ {
				add = append(add, Int(s.s[i]))
			}
		case Iface:
		default:
			unsupported("append of %T", y)
		}
		if len(add) == 0 {
			return dst
		}
		n := dst.len + len(add)
		if n <= dst.cap && dst.o != nil {
			it.writeElems(dst, dst.len, add)
			return Slice{o: dst.o, path: dst.path, off: dst.off, len: n, cap: dst.cap}
		}
		cp := n
		if !it.growExact {
			cp = max(n, 2*dst.cap)
		}
		e := append([]V(nil), it.elems(dst)...)
		e = append(e, add...)
		for len(e) < cp {
			e = append(e, it.zero(et))
		}
		return Slice{o: it.alloc("slice", et, Array{e}), len: n, cap: cp}
	})
}
