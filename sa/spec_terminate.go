package main

// Termination: a measure for every loop, progress in every recursion, no lock that is kept or taken twice.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type termAn struct {
	k      *Check
	prog   *Program
	fns    []*ssa.Function
	fn     *ssa.Function
	writes map[*ssa.Function]map[string]bool // memory written by a function and what it calls
	impls  map[string][]*ssa.Function        // methods of the repository by name
	stuck  map[*ssa.Function][]stuckCall     // recursive calls with the same arguments
}

type loop struct {
	head    *ssa.BasicBlock
	in      map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func loopsOf(fn *ssa.Function) []*loop {
	byHead := map[*ssa.BasicBlock]*loop{}
	var r []*loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, in: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				r = append(r, l)
			}
			l.latches = append(l.latches, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if !l.in[x] {
					l.in[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return r
}

func (l *loop) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.in[in.Block()]
}

// exits are the branches that may leave the loop.
func (l *loop) exits() (r []*ssa.If) {
	for b := range l.in {
		if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (!l.in[b.Succs[0]] || !l.in[b.Succs[1]]) {
			r = append(r, c)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Block().Index < r[j].Block().Index })
	return
}

// leaves tells whether the loop can be left at all, also by a return or panic.
func (l *loop) leaves() bool { return len(l.exits()) > 0 }

func (l *loop) everyRound(b *ssa.BasicBlock) bool {
	for _, x := range l.latches {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

// memKey names the memory behind an address: a field of a type, elements of a type, a global or local variable.
func memKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.IndexAddr:
		return "E:" + typeKey(pointee(x.Type()))
	case *ssa.Global:
		return "G:" + x.RelString(nil)
	case *ssa.Alloc:
		return fmt.Sprintf("L:%p", x)
	case *ssa.FreeVar:
		return "V:" + typeKey(x.Type())
	}
	return "P:" + typeKey(a.Type())
}

func (t *termAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
			return []*ssa.Function{o}
		}
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		var r []*ssa.Function
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range t.impls[c.Method.Name()] {
			ty := f.Signature.Recv().Type()
			if iface == nil || types.Implements(ty, iface) || types.Implements(types.NewPointer(ty), iface) || embedded(t, f, iface) {
				r = append(r, f)
			}
		}
		return r
	}
	return nil
}

// embedded tells whether a method may be promoted to a type that implements the interface.
func embedded(t *termAn, f *ssa.Function, iface *types.Interface) bool {
	recv := f.Signature.Recv().Type()
	if p, ok := recv.Underlying().(*types.Pointer); ok {
		recv = p.Elem()
	}
	var holds func(ty types.Type, depth int) bool
	holds = func(ty types.Type, depth int) bool {
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
		if types.Identical(ty, recv) {
			return true
		}
		st, ok := ty.Underlying().(*types.Struct)
		if !ok || depth > 6 {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && holds(st.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	for _, q := range t.prog.repoPkgs() {
		for _, m := range q.Members {
			tn, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tn.Type()) || types.Identical(tn.Type(), recv) {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(tn.Type()), iface) && holds(tn.Type(), 0) {
				return true
			}
		}
	}
	return false
}

// effects are the memory keys written by a function of the repository, including those of what it calls.
func (t *termAn) effects(f *ssa.Function) map[string]bool {
	if w, ok := t.writes[f]; ok {
		return w
	}
	w := map[string]bool{}
	t.writes[f] = w
	if f.Pkg == nil || !t.prog.isRepoPkg(fnPkgPath(f)) {
		return w
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for key := range t.writtenBy(in) {
				if !strings.HasPrefix(key, "L:") {
					w[key] = true
				}
			}
		}
	}
	return w
}

// writtenBy lists the memory an instruction may write.
func (t *termAn) writtenBy(in ssa.Instruction) map[string]bool {
	w := map[string]bool{}
	switch x := in.(type) {
	case *ssa.Store:
		w[memKey(x.Addr)] = true
		if k := memKey(x.Addr); k[0] == 'V' || k[0] == 'P' {
			w["*"+typeKey(x.Val.Type())] = true
		}
	case *ssa.MapUpdate:
		w["M:"+typeKey(x.Map.Type())] = true
	case ssa.CallInstruction:
		c := x.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear":
				w["M:"+typeKey(c.Args[0].Type())] = true
			case "copy":
				w["E:"+typeKey(pointee(c.Args[0].Type()))] = true
			}
			return w
		}
		for _, f := range t.callees(c) {
			for key := range t.effects(f) {
				w[key] = true
			}
		}
		// closures may write what they capture
		for _, v := range append([]ssa.Value{c.Value}, c.Args...) {
			if mc, ok := v.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					w[memKey(b)] = true
				}
			}
			if _, isPtr := v.Type().Underlying().(*types.Pointer); isPtr {
				w[memKey(v)] = true
			}
		}
	}
	return w
}

func (t *termAn) loopWrites(l *loop) map[string]bool {
	w := map[string]bool{}
	for b := range l.in {
		for _, in := range b.Instrs {
			for key := range t.writtenBy(in) {
				w[key] = true
			}
		}
	}
	return w
}

// fixed tells whether a value is the same in every round.
func (t *termAn) fixed(l *loop, v ssa.Value, writes map[string]bool, depth int) bool {
	if !l.inside(v) {
		return true
	}
	if depth > 12 {
		return false
	}
	rec := func(v ssa.Value) bool { return t.fixed(l, v, writes, depth+1) }
	switch x := v.(type) {
	case *ssa.BinOp:
		return rec(x.X) && rec(x.Y)
	case *ssa.Convert:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.Field:
		return rec(x.X)
	case *ssa.FieldAddr:
		return rec(x.X)
	case *ssa.IndexAddr:
		return rec(x.X) && rec(x.Index)
	case *ssa.Extract:
		return rec(x.Tuple)
	case *ssa.Slice:
		return rec(x.X) && (x.Low == nil || rec(x.Low)) && (x.High == nil || rec(x.High))
	case *ssa.UnOp:
		return rec(x.X) && (x.Op != token.MUL || !writes[memKey(x.X)] && !writes["*"+typeKey(x.Type())])
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !(x.Block() != l.head && rec(e)) {
				return false
			}
		}
		return x.Block() != l.head
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max") {
			for _, a := range x.Call.Args {
				if !rec(a) {
					return false
				}
				if _, isMap := a.Type().Underlying().(*types.Map); isMap && writes["M:"+typeKey(a.Type())] {
					return false
				}
			}
			return true
		}
		// a method that only computes from memory that isn't written
		if len(writes) > 0 && !t.pure(x) {
			return false
		}
		for _, a := range x.Call.Args {
			if !rec(a) {
				return false
			}
		}
		return !x.Call.IsInvoke() || rec(x.Call.Value)
	}
	return false
}

func (t *termAn) pure(c *ssa.Call) bool {
	fs := t.callees(&c.Call)
	for _, f := range fs {
		if !t.prog.isRepoPkg(fnPkgPath(f)) || len(t.effects(f)) > 0 {
			return false
		}
	}
	return len(fs) > 0
}

// offset computes by how much at least (low) or at most (!low) a value exceeds the phi.
func (t *termAn) offset(v ssa.Value, phi *ssa.Phi, low bool, busy map[*ssa.Phi]bool) (int64, bool) {
	if v == ssa.Value(phi) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		w := x.X
		if !ok && x.Op == token.ADD {
			c, ok = x.X.(*ssa.Const)
			w = x.Y
		}
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int || x.Op != token.ADD && x.Op != token.SUB {
			return 0, false
		}
		n, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, false
		}
		if x.Op == token.SUB {
			n = -n
		}
		o, ok := t.offset(w, phi, low, busy)
		return o + n, ok
	case *ssa.Phi:
		if busy[x] {
			return 0, false
		}
		busy[x] = true
		defer delete(busy, x)
		first := true
		var r int64
		for i, e := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) { // once more around an inner loop
				d, ok := t.offset(e, x, low, map[*ssa.Phi]bool{})
				if !ok || low && d < 0 || !low && d > 0 {
					return 0, false
				}
				continue
			}
			o, ok := t.offset(e, phi, low, busy)
			if !ok {
				return 0, false
			}
			if first || low && o < r || !low && o > r {
				r = o
			}
			first = false
		}
		return r, !first
	}
	return 0, false
}

func isInteger(ty types.Type) bool {
	b, ok := ty.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// counter finds the loop variable a value is at a constant distance of.
func (t *termAn) counter(l *loop, v ssa.Value) (*ssa.Phi, bool) {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.head {
				return x, true
			}
			return nil, false
		case *ssa.BinOp:
			if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
				v = x.X
				continue
			}
			if _, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD {
				v = x.Y
				continue
			}
		case *ssa.Convert:
			if isInteger(x.X.Type()) {
				v = x.X
				continue
			}
		}
		return nil, false
	}
	return nil, false
}

// steps gives the smallest and greatest change of a loop variable per round.
func (t *termAn) steps(l *loop, p *ssa.Phi) (lo, hi int64, ok bool) {
	first := true
	for i, e := range p.Edges {
		if !l.in[p.Block().Preds[i]] {
			continue
		}
		a, ok1 := t.offset(e, p, true, map[*ssa.Phi]bool{})
		b, ok2 := t.offset(e, p, false, map[*ssa.Phi]bool{})
		if !ok1 || !ok2 {
			// a bound on one side is enough
			if ok1 && a > 0 {
				b = 1 << 40
			} else if ok2 && b < 0 {
				a = -1 << 40
			} else {
				return 0, 0, false
			}
		}
		if first || a < lo {
			lo = a
		}
		if first || b > hi {
			hi = b
		}
		first = false
	}
	return lo, hi, !first
}

var negated = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}
var mirrored = map[token.Token]token.Token{token.LSS: token.GTR, token.GEQ: token.LEQ, token.GTR: token.LSS, token.LEQ: token.GEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}

// measured tells whether a branch ends the loop after a bounded number of rounds.
func (t *termAn) measured(l *loop, c *ssa.If, writes map[string]bool) string {
	if !l.everyRound(c.Block()) {
		return ""
	}
	cond, stay := c.Cond, l.in[c.Block().Succs[0]]
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, stay = u.X, !stay
	}
	if e, ok := cond.(*ssa.Extract); ok {
		if _, ok := e.Tuple.(*ssa.Next); ok && e.Index == 0 && stay {
			return "the entries of a map or string"
		}
	}
	b, ok := cond.(*ssa.BinOp)
	if !ok || negated[b.Op] == 0 {
		return ""
	}
	op, x, y := b.Op, b.X, b.Y
	if !stay {
		op = negated[op]
	}
	for i := 0; i < 2; i++ {
		if p, ok := t.counter(l, x); ok && isInteger(p.Type()) && t.fixed(l, y, writes, 0) {
			lo, hi, known := t.steps(l, p)
			up, down := known && lo > 0, known && hi < 0
			switch {
			case up && (op == token.LSS || op == token.LEQ), down && (op == token.GTR || op == token.GEQ),
				op == token.NEQ && known && lo == hi && (lo == 1 || lo == -1), (up || down) && op == token.EQL:
				return "a counter towards " + y.Name()
			}
		}
		x, y, op = y, x, mirrored[op]
	}
	return ""
}

// depends collects what the ends of the loop depend on: loop variables, memory, calls.
type ends struct {
	phis  map[*ssa.Phi]bool
	mem   map[string]bool
	calls []*ssa.Call
	fresh bool // something that isn't known to be the same in the next round
}

func (t *termAn) depends(l *loop) *ends {
	r := &ends{phis: map[*ssa.Phi]bool{}, mem: map[string]bool{}}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] || !l.inside(v) {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.head {
				r.phis[x] = true
			} else if d := x.Block().Idom(); d != nil && l.in[d] {
				// the choice between the edges
				for b := range l.in {
					if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && d.Dominates(b) && b.Dominates(x.Block()) {
						visit(c.Cond)
					}
				}
				if c, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
					visit(c.Cond)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				r.mem[memKey(x.X)] = true
				if k := memKey(x.X); k[0] == 'V' || k[0] == 'P' {
					r.mem["*"+typeKey(x.Type())] = true
				}
			}
			if x.Op == token.ARROW {
				r.fresh = true
			}
		case *ssa.Lookup:
			r.mem["M:"+typeKey(x.X.Type())] = true
		case *ssa.Next:
			r.fresh = true
		case *ssa.Call:
			b, builtin := x.Call.Value.(*ssa.Builtin)
			if builtin && b.Name() == "len" {
				r.mem["M:"+typeKey(x.Call.Args[0].Type())] = true
			}
			if !builtin {
				fs := t.callees(&x.Call)
				if len(fs) == 0 {
					r.fresh = true
				}
				for _, f := range fs {
					if t.prog.isRepoPkg(fnPkgPath(f)) {
						t.reads(f, r, map[*ssa.Function]bool{})
						if len(t.effects(f)) > 0 {
							r.fresh = true
						}
					} else if stateful(f) {
						r.fresh = true
					}
				}
				for _, a := range x.Call.Args { // functions that are called by others
					if _, ok := a.Type().Underlying().(*types.Signature); !ok {
						continue
					}
					var f *ssa.Function
					switch y := a.(type) {
					case *ssa.MakeClosure:
						f = y.Fn.(*ssa.Function)
						for _, b := range y.Bindings {
							r.mem[memKey(b)] = true
						}
					case *ssa.Function:
						f = y
					}
					if f == nil || len(t.effects(f)) > 0 || !t.prog.isRepoPkg(fnPkgPath(f)) {
						r.fresh = true
						continue
					}
					t.reads(f, r, map[*ssa.Function]bool{})
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok {
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o != nil && *o != nil {
					visit(*o)
				}
			}
		}
	}
	for _, c := range l.exits() {
		visit(c.Cond)
	}
	// loop variables that the others are computed from
	for again := true; again; {
		again = false
		for p := range r.phis {
			for i, e := range p.Edges {
				if l.in[p.Block().Preds[i]] && !seen[e] && l.inside(e) {
					visit(e)
					again = true
				}
			}
		}
	}
	return r
}

// reads adds the memory a function of the repository reads.
func (t *termAn) reads(f *ssa.Function, r *ends, seen map[*ssa.Function]bool) {
	if seen[f] || !t.prog.isRepoPkg(fnPkgPath(f)) {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					r.mem[memKey(x.X)] = true
				}
			case *ssa.Lookup:
				r.mem["M:"+typeKey(x.X.Type())] = true
			case ssa.CallInstruction:
				for _, g := range t.callees(x.Common()) {
					t.reads(g, r, seen)
				}
			}
		}
	}
}

// stateful functions of other packages may answer differently when they are called again: they have a receiver or
// another argument that refers to something mutable.
func stateful(f *ssa.Function) bool {
	switch fnPkgPath(f) {
	case "slices", "maps", "math", "strings", "sort", "cmp", "strconv", "unicode", "unicode/utf8", "errors", "bytes", "math/bits", "fmt", "reflect",
		"gonum.org/v1/gonum/floats", "gonum.org/v1/gonum/floats/scalar":
		r := f.Signature.Recv()
		return r != nil && !types.IsInterface(r.Type()) && isPointer(r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		switch f.Signature.Params().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Chan, *types.Signature:
			if _, ok := f.Signature.Params().At(i).Type().(*types.TypeParam); !ok {
				return true
			}
		}
	}
	if r := f.Signature.Recv(); r != nil {
		_, ok := r.Type().Underlying().(*types.Pointer)
		return ok || types.IsInterface(r.Type())
	}
	return f.Signature.Params().Len() == 0
}

// stagnates looks for a way around the loop that changes nothing its end depends on.
func (t *termAn) stagnates(l *loop, e *ends) bool {
	if e.fresh {
		return false
	}
	writes := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			for key := range t.writtenBy(in) {
				if e.mem[key] {
					return true
				}
			}
			if st, ok := in.(*ssa.Store); ok && e.mem["*"+typeKey(st.Val.Type())] {
				return true
			}
			if c, ok := in.(*ssa.Call); ok && len(e.mem) > 0 {
				if _, builtin := c.Call.Value.(*ssa.Builtin); !builtin && len(t.callees(&c.Call)) == 0 {
					return true // an unknown function
				}
			}
		}
		return false
	}
	paths := 0
	var walk func(path []*ssa.BasicBlock) bool
	walk = func(path []*ssa.BasicBlock) bool {
		b := path[len(path)-1]
		if paths > 4000 || writes(b) {
			return false
		}
		for _, s := range b.Succs {
			if s == l.head {
				paths++
				changed := false
				for p := range e.phis {
					changed = changed || !sticks(l, t.valueOn(append(path, s), p), p)
				}
				if !changed {
					return true
				}
				continue
			}
			if !l.in[s] || s.Dominates(b) {
				continue
			}
			if walk(append(path[:len(path):len(path)], s)) {
				return true
			}
		}
		return false
	}
	return walk([]*ssa.BasicBlock{l.head})
}

// valueOn resolves the next value of a loop variable along a path around the loop.
func (t *termAn) valueOn(path []*ssa.BasicBlock, p *ssa.Phi) ssa.Value {
	v := ssa.Value(p)
	for i := len(path) - 1; i > 0; i-- {
		q, ok := v.(*ssa.Phi)
		if !ok || q.Block() != path[i] {
			continue
		}
		for j, pr := range path[i].Preds {
			if pr == path[i-1] {
				v = q.Edges[j]
				break
			}
		}
	}
	return v
}

func (t *termAn) pos(in ssa.Instruction) string {
	for _, p := range []token.Pos{in.Pos(), in.Block().Parent().Pos()} {
		if p.IsValid() {
			return shortPos(t.prog, t.prog.fset.Position(p))
		}
	}
	return "?"
}

func (t *termAn) loopPos(l *loop) string {
	for _, c := range l.exits() {
		if in, ok := c.Cond.(ssa.Instruction); ok && in.Pos().IsValid() {
			return t.pos(in)
		}
	}
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return t.pos(in)
		}
	}
	return t.pos(l.head.Instrs[0])
}

const termRule = "termination"

func (t *termAn) loops() (ranked map[string]int) {
	ranked = map[string]int{}
	for _, l := range loopsOf(t.fn) {
		what := t.fn.RelString(nil)
		t.k.obligation(termRule, what+": loop at "+t.loopPos(l))
		if !l.leaves() {
			t.k.violate(termRule, what, t.loopPos(l), "a loop that nothing ends")
			continue
		}
		writes := t.loopWrites(l)
		measure := ""
		for _, c := range l.exits() {
			if m := t.measured(l, c, writes); m != "" {
				measure = m
				break
			}
		}
		if measure != "" {
			ranked["bounded by "+strings.Fields(measure)[0]+" "+strings.Fields(measure)[1]]++
			t.k.ok++
			continue
		}
		e := t.depends(l)
		switch {
		case t.stagnates(l, e):
			t.k.violate(termRule, what, t.loopPos(l), "there is a way around the loop that changes nothing its end depends on")
		case t.onlyFloats(l, e, writes):
			t.k.violate(termRule, what, t.loopPos(l), "the loop ends only when floating-point numbers get somewhere, which rounding may prevent")
		case t.jumpsOver(l, writes):
			t.k.violate(termRule, what, t.loopPos(l), "the loop ends only when a counter hits a value that its steps may jump over")
		default:
			ranked["progress in every round"]++
			t.k.ok++
		}
	}
	return
}

// onlyFloats tells whether nothing but floating-point numbers leads to the end of a loop.
func (t *termAn) onlyFloats(l *loop, e *ends, writes map[string]bool) bool {
	for p := range e.phis {
		lo, hi, known := t.steps(l, p)
		switch ty := p.Type().Underlying().(type) {
		case *types.Basic:
			if ty.Info()&types.IsInteger != 0 && known && (lo > 0 || hi < 0) || ty.Info()&types.IsString != 0 {
				return false
			}
		default:
			return false
		}
	}
	floats := false
	for _, c := range l.exits() {
		cond := c.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond = u.X
		}
		var ops []ssa.Value
		switch x := cond.(type) {
		case *ssa.BinOp:
			ops = []ssa.Value{x.X, x.Y}
		case *ssa.Call:
			ops = x.Call.Args
		case *ssa.Const:
			continue
		}
		isF := len(ops) > 0
		for _, o := range ops {
			isF = isF && isFloat(o.Type())
		}
		if isF {
			floats = floats || !t.fixed(l, cond, writes, 0)
			continue
		}
		if len(ops) == 2 && types.Identical(ops[0].Type(), types.Universe.Lookup("error").Type()) {
			continue
		}
		if !t.fixed(l, cond, writes, 0) && !t.numeric(l, cond, 0) {
			return false
		}
	}
	return floats
}

// numeric tells whether a condition depends on numbers only that are loop variables or fixed.
func (t *termAn) numeric(l *loop, v ssa.Value, depth int) bool {
	if !l.inside(v) {
		return true
	}
	if depth > 12 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return t.numeric(l, x.X, depth+1) && t.numeric(l, x.Y, depth+1)
	case *ssa.Convert:
		return t.numeric(l, x.X, depth+1)
	case *ssa.Phi:
		return x.Block() == l.head && (isInteger(x.Type()) || isFloat(x.Type()))
	}
	return false
}

// jumpsOver recognises a loop that ends only when a counter hits a value that its steps may miss.
func (t *termAn) jumpsOver(l *loop, writes map[string]bool) bool {
	es := l.exits()
	if len(es) != 1 {
		return false
	}
	b, ok := es[0].Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op := b.Op
	if !l.in[es[0].Block().Succs[0]] {
		op = negated[op]
	}
	for _, xy := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		p, ok := t.counter(l, xy[0])
		if !ok || op != token.NEQ || !isInteger(p.Type()) || !t.fixed(l, xy[1], writes, 0) {
			continue
		}
		for i, e := range p.Edges {
			if !l.in[p.Block().Preds[i]] {
				continue
			}
			if s, ok := e.(*ssa.BinOp); ok && (s.Op == token.ADD || s.Op == token.SUB) && (s.X == ssa.Value(p) || s.Y == ssa.Value(p)) {
				other := s.Y
				if other == ssa.Value(p) {
					other = s.X
				}
				if c, ok := other.(*ssa.Const); !ok || c.Value == nil || c.Int64() != 1 && c.Int64() != -1 {
					return true
				}
			}
		}
	}
	return false
}

func isPointer(ty types.Type) bool {
	_, ok := ty.Underlying().(*types.Pointer)
	return ok
}

// halves tells whether a value is the middle of a loop variable and something else, rounded down.
func halves(v ssa.Value, p *ssa.Phi, depth int) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || depth > 6 || !isInteger(v.Type()) {
		return false
	}
	switch b.Op {
	case token.QUO, token.SHR:
		_, c := b.Y.(*ssa.Const)
		return c && mentions(b.X, p, 0)
	case token.ADD: // p + (q-p)/2
		q, ok := b.Y.(*ssa.BinOp)
		return ok && b.X == ssa.Value(p) && (q.Op == token.QUO || q.Op == token.SHR)
	}
	return false
}

func mentions(v ssa.Value, p *ssa.Phi, depth int) bool {
	if v == ssa.Value(p) {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		_, one := x.Y.(*ssa.Const)
		return depth < 6 && !one && (mentions(x.X, p, depth+1) || mentions(x.Y, p, depth+1))
	case *ssa.Convert:
		return depth < 6 && mentions(x.X, p, depth+1)
	}
	return false
}

// sticks tells whether the next value of a loop variable may be the same one, as in a bisection that keeps the middle.
func sticks(l *loop, v ssa.Value, p *ssa.Phi) bool {
	if v == ssa.Value(p) {
		return true
	}
	if !halves(v, p, 0) {
		return false
	}
	for _, c := range l.exits() {
		b, ok := c.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		op, x, y := b.Op, b.X, b.Y
		if !l.in[c.Block().Succs[0]] {
			op = negated[op]
		}
		if op == token.GTR || op == token.GEQ {
			x, y, op = y, x, mirrored[op]
		}
		_, yPhi := y.(*ssa.Phi)
		_, xPhi := x.(*ssa.Phi)
		if xPhi && yPhi && (x == ssa.Value(p) && (op == token.LSS || op == token.LEQ || op == token.NEQ) || y == ssa.Value(p) && op == token.LEQ) {
			return true
		}
	}
	return false
}

// recursion demands that calls of a function by itself get other arguments that can get smaller.
func (t *termAn) recursion(reach map[*ssa.Function]map[*ssa.Function]bool) {
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			what := t.fn.RelString(nil)
			if m := t.selfFormat(c); m != "" {
				t.k.obligation(termRule, what)
				t.k.violate(termRule, what, t.pos(in), "%v calls this method again", m)
			}
			for _, f := range t.callees(c) {
				if f != t.fn && !reach[f][t.fn] {
					continue
				}
				t.k.obligation(termRule, what+": recursion through "+f.RelString(nil))
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				progress := f != t.fn && len(args) == 0
				for i, a := range args {
					a = unconverted(a)
					p, isParam := a.(*ssa.Parameter)
					switch {
					case f == t.fn && i < len(t.fn.Params) && a == ssa.Value(t.fn.Params[i]):
					case f != t.fn && isParam && p != nil:
					case isFloat(a.Type()):
					case f == t.fn && constArg(a):
					default:
						progress = true
					}
				}
				t.k.ok++
				if !progress {
					t.stuck[t.fn] = append(t.stuck[t.fn], stuckCall{f, t.pos(in)})
				}
			}
		}
	}
}

func unconverted(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		default:
			return v
		}
	}
}

type stuckCall struct {
	to  *ssa.Function
	pos string
}

// cycles reports recursion that consists of calls without progress only.
func (t *termAn) cycles() {
	for _, f := range t.fns {
		for _, c := range t.stuck[f] {
			seen := map[*ssa.Function]bool{}
			work := []*ssa.Function{c.to}
			for len(work) > 0 {
				g := work[len(work)-1]
				work = work[:len(work)-1]
				if seen[g] {
					continue
				}
				seen[g] = true
				for _, d := range t.stuck[g] {
					work = append(work, d.to)
				}
			}
			if seen[f] {
				t.k.ok--
				t.k.violate(termRule, f.RelString(nil), c.pos, "recursion through %v with arguments that don't get smaller", c.to.RelString(nil))
			}
		}
	}
}

func constArg(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() != constant.Bool
}

// selfFormat recognises printing or (un)marshalling of the receiver within the method that does it.
func (t *termAn) selfFormat(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || t.fn.Signature.Recv() == nil || len(t.fn.Params) == 0 {
		return ""
	}
	recv := t.fn.Params[0]
	own := func(v ssa.Value) bool {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		x := mi.X
		if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if types.Identical(ld.Type(), recv.Type()) {
				return true
			}
			x = ld.X
		}
		return x == ssa.Value(recv) && types.Identical(x.Type(), recv.Type())
	}
	name := t.fn.Name()
	switch fnPkgPath(f) {
	case "encoding/json":
		if (name == "MarshalJSON" || name == "UnmarshalJSON" || name == "MarshalText" || name == "UnmarshalText") && (f.Name() == "Marshal" || f.Name() == "Unmarshal" || f.Name() == "MarshalIndent") {
			for _, a := range c.Args {
				if own(a) {
					return f.RelString(nil)
				}
			}
		}
	case "fmt":
		if name != "String" && name != "Error" && name != "GoString" && name != "Format" || len(c.Args) == 0 {
			return ""
		}
		verbs := []byte(nil)
		for _, a := range c.Args {
			if s, ok := a.(*ssa.Const); ok && strings.HasSuffix(f.Name(), "f") && s.Value != nil && s.Value.Kind() == constant.String {
				verbs = formatVerbs(constant.StringVal(s.Value))
			}
		}
		sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
		if !ok {
			return ""
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return ""
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, s := range *ia.Referrers() {
				st, ok := s.(*ssa.Store)
				if !ok || !own(st.Val) {
					continue
				}
				i, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				n := int(i.Int64())
				if strings.HasSuffix(f.Name(), "f") && (n >= len(verbs) || !strings.ContainsRune("vsqxX", rune(verbs[n]))) {
					continue
				}
				return f.RelString(nil)
			}
		}
	}
	return ""
}

// locks: what is locked is unlocked on all ways out, and isn't locked again before.
func (t *termAn) locks() {
	op := func(in ssa.Instruction) (kind, key string) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return "", ""
		}
		f := ci.Common().StaticCallee()
		if f == nil || fnPkgPath(f) != "sync" || len(ci.Common().Args) == 0 {
			return "", ""
		}
		switch f.Name() {
		case "Lock", "RLock", "Unlock", "RUnlock":
			kind = f.Name()
			if _, ok := in.(*ssa.Defer); ok {
				kind = "defer " + kind
			}
			a := ci.Common().Args[0]
			key = memKey(a)
			if fa, ok := a.(*ssa.FieldAddr); ok {
				key += "@" + fa.X.Name()
			}
		}
		return
	}
	for _, b := range t.fn.Blocks {
		for i, in := range b.Instrs {
			kind, key := op(in)
			if kind != "Lock" && kind != "RLock" {
				continue
			}
			what := t.fn.RelString(nil)
			t.k.obligation(termRule, what+": lock")
			seen := map[*ssa.BasicBlock]bool{}
			bad := ""
			var follow func(b *ssa.BasicBlock, from int, deferred bool)
			follow = func(b *ssa.BasicBlock, from int, deferred bool) {
				for _, in := range b.Instrs[from:] {
					k2, key2 := op(in)
					if key2 == key {
						switch k2 {
						case "Unlock", "RUnlock":
							return
						case "defer Unlock", "defer RUnlock":
							deferred = true
						case "Lock":
							bad = "locked again at " + t.pos(in)
							return
						case "RLock":
							if kind == "Lock" {
								bad = "locked again at " + t.pos(in)
								return
							}
						}
					}
					switch x := in.(type) {
					case *ssa.Return, *ssa.Panic:
						if !deferred {
							bad = "still locked at " + t.pos(in)
						}
						return
					case *ssa.Defer:
						if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok && unlocks(mc.Fn.(*ssa.Function)) {
							deferred = true
						}
					case *ssa.Call:
						for _, f := range t.callees(&x.Call) {
							if t.locksKey(f, strings.SplitN(key, "@", 2)[0], map[*ssa.Function]bool{}) {
								bad = "locked again by " + f.RelString(nil)
								return
							}
							if t.prog.isRepoPkg(fnPkgPath(f)) && unlocks(f) {
								return
							}
						}
					}
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						follow(s, 0, deferred)
					}
				}
			}
			follow(b, i+1, false)
			if bad != "" {
				t.k.violate(termRule, what, t.pos(in), "lock: %v", bad)
			} else {
				t.k.ok++
			}
		}
	}
}

func unlocks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && fnPkgPath(g) == "sync" && strings.HasSuffix(g.Name(), "nlock") {
					return true
				}
			}
		}
	}
	return false
}

func (t *termAn) locksKey(f *ssa.Function, key string, seen map[*ssa.Function]bool) bool {
	if seen[f] || !t.prog.isRepoPkg(fnPkgPath(f)) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, g := range t.callees(c.Common()) {
				if fnPkgPath(g) == "sync" && (g.Name() == "Lock") && len(c.Common().Args) > 0 && memKey(c.Common().Args[0]) == key {
					return true
				}
				if t.locksKey(g, key, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (t *termAn) waits() {
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			bad := ""
			switch x := in.(type) {
			case *ssa.Select:
				if x.Blocking && len(x.States) == 0 {
					bad = "select without cases"
				}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					if _, ok := x.X.(*ssa.Const); ok {
						bad = "receiving from nil"
					}
				}
			case *ssa.Send:
				if mc, ok := x.Chan.(*ssa.MakeChan); ok {
					if c, ok := mc.Size.(*ssa.Const); ok && c.Int64() == 0 && len(*mc.Referrers()) == 1 {
						bad = "sending to a channel that nobody reads"
					}
				}
			}
			if bad != "" {
				t.k.obligation(termRule, t.fn.RelString(nil))
				t.k.violate(termRule, t.fn.RelString(nil), t.pos(in), "%v", bad)
			}
		}
	}
}

func runC30(k *Check) {
	k.scen = "all functions"
	t := &termAn{k: k, prog: k.prog, writes: map[*ssa.Function]map[string]bool{}, impls: map[string][]*ssa.Function{}, stuck: map[*ssa.Function][]stuckCall{}}
	t.fns = k.prog.sourceFuncs()
	for _, f := range t.fns {
		if f.Signature.Recv() != nil {
			t.impls[f.Name()] = append(t.impls[f.Name()], f)
		}
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range t.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					calls[f] = append(calls[f], t.callees(c.Common())...)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range t.fns {
		r := map[*ssa.Function]bool{}
		work := append([]*ssa.Function(nil), calls[f]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if !r[g] {
				r[g] = true
				work = append(work, calls[g]...)
			}
		}
		reach[f] = r
	}
	kinds := map[string]int{}
	for _, f := range t.fns {
		t.fn = f
		k.visited[f.RelString(nil)] = true
		k.obligation(termRule, f.RelString(nil))
		k.ok++
		for _, b := range f.Blocks {
			k.instrs += len(b.Instrs)
		}
		for m, n := range t.loops() {
			kinds[m] += n
		}
		t.recursion(reach)
		t.locks()
		t.waits()
	}
	t.cycles()
	k.extra["loops"] = kinds
	k.extra["functions"] = len(t.fns)
}

func init() {
	register(&propSpec{
		id: "C30", min: 200,
		rule:   "termination analysis over the SSA form of every function of the repository: every loop is bounded by the entries of a map or string or by an integer that moves in every round towards a value that stays the same, or else every way around it changes something its end depends on, which isn't only a floating-point number; every recursive call (call graph with all implementations of interface methods) gets arguments that can get smaller; no method prints or (un)marshals its own receiver; every lock is released on all ways out and not taken twice",
		assume: []string{"functions of other packages terminate when their arguments do", "objects handed in by the caller terminate", "loops without an integer measure end if they make progress in every round (listed in the evidence)"},
		run:    runC30,
	})
}
