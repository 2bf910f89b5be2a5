package main

// Error discipline: what becomes of the errors that calls produce.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errSource is a place that yields an error: a call, an error parameter, or a call of a closure that stores one.
type errSource struct {
	fn    *ssa.Function
	block *ssa.BasicBlock
	at    int // index of the first instruction after the source
	call  ssa.CallInstruction
	seeds []ssa.Value
	desc  string
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func hasError(t types.Type) bool {
	switch u := t.(type) {
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasError(u.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return isErrorType(t)
}

// neverFails lists library calls whose error result is documented to be always nil, or whose failure concerns only
// diagnostic output.
func neverFails(c *ssa.CallCommon) bool {
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	n := fn.String()
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).Write", "fmt.Print", "fmt.Fprint"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return types.TypeString(c.Value.Type(), func(p *types.Package) string { return p.Name() }) + "." + c.Method.Name()
	}
	if fn := c.StaticCallee(); fn != nil {
		return fn.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin " + b.Name()
	}
	return "function value " + c.Value.Name()
}

// reportsFailure: the callee tells somebody (or ends the program).
func reportsFailure(c *ssa.CallCommon) bool {
	n := calleeName(c)
	for _, p := range []string{"log.", "(*log.Logger).", "log/slog.", "(*log/slog.Logger).", "(*testing.common).", "(*testing.T).", "os.Exit", "builtin panic", "fmt.Print", "fmt.Fprint", "builtin print"} {
		if strings.HasPrefix(n, p) {
			return !strings.HasSuffix(n, ".Helper") && !strings.HasSuffix(n, ".Name")
		}
	}
	return false
}

// madeError: a call that always yields an error.
func madeError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			return fn.String() == "errors.New" || fn.String() == "fmt.Errorf"
		}
	case *ssa.MakeInterface:
		return true // a concrete error value
	case *ssa.ChangeInterface:
		return madeError(x.X)
	}
	return false
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

type errState struct {
	carry  map[ssa.Value]bool // values (or memory) that hold the error
	nonnil map[ssa.Value]bool // other errors known to be set on this path
	path   []string
}

func (s *errState) clone() *errState {
	n := &errState{carry: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}, path: s.path}
	for v := range s.carry {
		n.carry[v] = true
	}
	for v := range s.nonnil {
		n.nonnil[v] = true
	}
	return n
}

func (s *errState) key() string {
	var ks []string
	for v := range s.carry {
		ks = append(ks, fmt.Sprintf("%p", v))
	}
	for v := range s.nonnil {
		ks = append(ks, fmt.Sprintf("n%p", v))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (k *Check) errorSources(fn *ssa.Function) []errSource {
	var r []errSource
	if hasError(fn.Signature.Results()) {
		for _, p := range fn.Params {
			if isErrorType(p.Type()) {
				r = append(r, errSource{fn: fn, block: fn.Blocks[0], seeds: []ssa.Value{p}, desc: "parameter " + p.Name()})
			}
		}
	}
	if hasError(fn.Signature.Results()) {
		for _, fv := range paramsThrough(fn) {
			r = append(r, errSource{fn: fn, block: fn.Blocks[0], seeds: []ssa.Value{fv}, desc: "variable " + fv.Name()})
		}
	}
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			for _, cell := range storedByClosures(c) {
				r = append(r, errSource{fn: fn, block: b, at: i + 1, seeds: []ssa.Value{cell}, desc: "value that " + calleeName(cc) + " leaves in " + cell.Comment})
			}
			if !hasError(cc.Signature().Results()) || neverFails(cc) {
				continue
			}
			name := calleeName(cc)
			if name == "errors.New" || name == "fmt.Errorf" || name == "errors.Join" {
				continue // what they are made of, or why they are made, counts; see walk
			}
			src := errSource{fn: fn, block: b, at: i + 1, call: c, desc: name}
			if v, ok := in.(ssa.Value); ok {
				src.seeds = []ssa.Value{v}
			}
			r = append(r, src)
		}
	}
	return r
}

// closureOf follows an operand back to the function literal it is.
func closureOf(v ssa.Value) *ssa.MakeClosure {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// storedByClosures: the local error variables that the function literals run by this call (the callee or an argument)
// may assign a call's error to.
func storedByClosures(call ssa.CallInstruction) []*ssa.Alloc {
	if _, now := call.(*ssa.Call); !now {
		return nil // a deferred one runs after everything else
	}
	c := call.Common()
	var r []*ssa.Alloc
	for _, v := range append([]ssa.Value{c.Value}, c.Args...) {
		mc := closureOf(v)
		if mc == nil {
			continue
		}
		fn := mc.Fn.(*ssa.Function)
		for i, fv := range fn.FreeVars {
			cell, ok := mc.Bindings[i].(*ssa.Alloc)
			if p, isPtr := fv.Type().(*types.Pointer); !ok || !isPtr || !isErrorType(p.Elem()) {
				continue
			}
			for _, ref := range *fv.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == fv && !isNilConst(st.Val) {
					r = append(r, cell)
					break
				}
			}
		}
	}
	return r
}

// paramsThrough: the free variables of a function literal called on the spot that are error parameters of the function
// around it, never assigned to.
func paramsThrough(fn *ssa.Function) []*ssa.FreeVar {
	if fn.Parent() == nil {
		return nil
	}
	var r []*ssa.FreeVar
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for _, ref := range *mc.Referrers() {
				if c, ok := ref.(*ssa.Call); !ok || c.Call.Value != mc {
					return nil
				}
			}
			for i, bind := range mc.Bindings {
				switch x := bind.(type) {
				case *ssa.Parameter:
					if isErrorType(x.Type()) {
						r = append(r, fn.FreeVars[i])
					}
				case *ssa.Alloc:
					if onlyHoldsParam(x) {
						r = append(r, fn.FreeVars[i])
					}
				}
			}
		}
	}
	return r
}

func onlyHoldsParam(a *ssa.Alloc) bool {
	found := false
	for _, ref := range *a.Referrers() {
		switch st := ref.(type) {
		case *ssa.Store:
			if p, ok := st.Val.(*ssa.Parameter); !ok || !isErrorType(p.Type()) || st.Addr != a {
				return false
			}
			found = true
		case *ssa.MakeClosure:
			fn := st.Fn.(*ssa.Function)
			for i, b := range st.Bindings {
				if b != a {
					continue
				}
				for _, r := range *fn.FreeVars[i].Referrers() {
					if l, ok := r.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return false
					}
				}
			}
		}
	}
	return found
}

// walk explores all paths on which the source yields an error. It returns the position of the exit on which the error
// is lost, if any.
func (k *Check) walkError(s errSource) (lost token.Pos, why string, steps int) {
	type item struct {
		b  *ssa.BasicBlock
		i  int
		st *errState
	}
	start := &errState{carry: map[ssa.Value]bool{}, nonnil: map[ssa.Value]bool{}}
	for _, v := range s.seeds {
		start.carry[v] = true
	}
	if _, isCall := s.call.(*ssa.Call); s.call != nil && !isCall {
		return s.call.Pos(), "the error of a deferred or concurrent call is dropped", 1
	}
	work := []item{{s.block, s.at, start}}
	seen := map[string]bool{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		st := w.st
		steps++
		if steps > 20000 {
			return s.block.Parent().Pos(), "undecided: too many paths", steps
		}
		done := false
	instrs:
		for i := w.i; i < len(w.b.Instrs); i++ {
			in := w.b.Instrs[i]
			carrying := func(v ssa.Value) bool { return v != nil && (st.carry[v] || st.carry[addrRoot(v)]) }
			anyOp := func() bool {
				for _, op := range in.Operands(nil) {
					if *op != nil && carrying(*op) {
						return true
					}
				}
				return false
			}
			set := func(v ssa.Value, on bool) {
				if on {
					st.carry[v] = true
				} else {
					delete(st.carry, v)
				}
				delete(st.nonnil, v)
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef, *ssa.Jump, *ssa.RunDefers:
			case *ssa.Extract:
				on := carrying(x.Tuple)
				if c, ok := x.Tuple.(*ssa.Call); ok && s.call == c && !isErrorType(x.Type()) {
					on = false
				}
				set(x, on)
			case *ssa.Store:
				root := addrRoot(x.Addr)
				_, local := root.(*ssa.Alloc)
				switch {
				case carrying(x.Val) && !local:
					done = true // kept outside of the function
					break instrs
				case carrying(x.Val):
					st.carry[root] = true
					if x.Addr == root {
						delete(st.nonnil, root)
					}
				case x.Addr == root && st.carry[root]:
					delete(st.carry, root) // overwritten
				}
				if x.Addr == root && local && !carrying(x.Val) && isErrorType(x.Val.Type()) {
					delete(st.nonnil, root)
					if st.nonnil[x.Val] || madeError(x.Val) {
						st.nonnil[root] = true
					}
				}
			case *ssa.MapUpdate, *ssa.Send:
				if anyOp() {
					done = true
					break instrs
				}
			case *ssa.Go, *ssa.Defer:
				if anyOp() {
					done = true
					break instrs
				}
			case *ssa.Panic:
				done = true
				break instrs
			case *ssa.Call:
				cc := x.Common()
				name := calleeName(cc)
				given := false
				for _, a := range cc.Args {
					given = given || carrying(a)
				}
				if _, closure := cc.Value.(*ssa.MakeClosure); closure || cc.IsInvoke() || cc.StaticCallee() == nil {
					given = given || carrying(cc.Value)
				}
				switch {
				case reportsFailure(cc) && (given || k.examined(st, s, w.b)):
					done = true
					break instrs
				case x == s.call:
					set(x, false) // the next error of the same call
				case given && cc.Signature().Results().Len() == 0 && !strings.HasPrefix(name, "builtin "):
					done = true // handed on
					break instrs
				default:
					set(x, given)
				}
			case *ssa.If:
				t, f := w.b.Succs[0], w.b.Succs[1]
				takeT, takeF := true, true
				st2 := st
				switch c := x.Cond.(type) {
				case *ssa.Const:
					takeT = constant.BoolVal(c.Value)
					takeF = !takeT
				case *ssa.BinOp:
					v, isNilTest := c.X, isNilConst(c.Y)
					if isNilConst(c.X) {
						v, isNilTest = c.Y, true
					}
					if isNilTest && (c.Op == token.EQL || c.Op == token.NEQ) && isErrorType(v.Type()) {
						set := carrying(v) || st.nonnil[v] || madeError(v)
						if set {
							takeT, takeF = c.Op == token.NEQ, c.Op == token.EQL
						} else {
							st2 = st.clone()
							if c.Op == token.NEQ {
								st.nonnil[v] = true
							} else {
								st2.nonnil[v] = true
							}
						}
						break
					}
					if carrying(c) {
						done = true
						break instrs
					}
				case *ssa.Call:
					if n := calleeName(c.Common()); carrying(c) {
						if n == "errors.Is" || n == "errors.As" {
							takeT = false // recognised: dealt with on purpose
						} else {
							done = true
							break instrs
						}
					}
				default:
					if carrying(x.Cond) {
						done = true
						break instrs
					}
				}
				for _, nx := range []struct {
					b    *ssa.BasicBlock
					take bool
					st   *errState
				}{{t, takeT, st}, {f, takeF, st2}} {
					if nx.take {
						n := k.enter(w.b, nx.b, nx.st)
						key := fmt.Sprintf("%d %s", nx.b.Index, n.key())
						if !seen[key] {
							seen[key] = true
							work = append(work, item{nx.b, 0, n})
						}
					}
				}
				done = true
				break instrs
			case *ssa.Return:
				good, bad := false, ""
				for _, r := range x.Results {
					switch {
					case carrying(r):
						good = true
					case isErrorType(r.Type()) && (st.nonnil[r] || madeError(r)):
						good = true
					case isErrorType(r.Type()):
						bad = "returned is " + describe(r)
					}
				}
				if !good {
					if bad == "" {
						bad = "the function returns without reporting it"
					}
					pos := x.Pos()
					if !pos.IsValid() {
						pos = s.fn.Pos()
					}
					return pos, bad, steps
				}
				done = true
				break instrs
			default:
				if v, ok := in.(ssa.Value); ok {
					if al, isAlloc := v.(*ssa.Alloc); isAlloc {
						delete(st.carry, al)
						delete(st.nonnil, al)
						continue
					}
					on := anyOp()
					other := false
					if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL && isErrorType(l.Type()) {
						other = st.nonnil[l.X]
					}
					set(v, on)
					if other {
						st.nonnil[v] = true
					}
				}
			}
		}
		if done {
			continue
		}
		for _, nb := range w.b.Succs {
			n := k.enter(w.b, nb, st)
			key := fmt.Sprintf("%d %s", nb.Index, n.key())
			if !seen[key] {
				seen[key] = true
				work = append(work, item{nb, 0, n})
			}
		}
	}
	return token.NoPos, "", steps
}

// examined tells whether this block is only reached if the error was found to be set.
func (k *Check) examined(st *errState, s errSource, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if p := d.Idom(); p != nil && len(d.Preds) == 1 {
			if c, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok {
				if bo, ok := c.Cond.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) && (st.carry[bo.X] || st.carry[bo.Y]) {
					return true
				}
			}
		}
	}
	return false
}

// enter moves along an edge and evaluates the phis.
func (k *Check) enter(from, to *ssa.BasicBlock, st *errState) *errState {
	n := st.clone()
	edge := -1
	for i, p := range to.Preds {
		if p == from {
			edge = i
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := phi.Edges[edge]
		delete(n.carry, phi)
		delete(n.nonnil, phi)
		if st.carry[v] {
			n.carry[phi] = true
		} else if st.nonnil[v] || isErrorType(v.Type()) && madeError(v) {
			n.nonnil[phi] = true
		}
	}
	return n
}

func describe(v ssa.Value) string {
	if isNilConst(v) {
		return "nil"
	}
	if c, ok := v.(*ssa.Call); ok {
		return "the result of " + calleeName(c.Common())
	}
	if e, ok := v.(*ssa.Extract); ok {
		return describe(e.Tuple)
	}
	return "another error (" + v.Name() + ") that may be nil"
}

func runC25(k *Check) {
	k.scen = "all functions"
	fns := k.prog.sourceFuncs()
	sites := 0
	for _, fn := range fns {
		srcs := k.errorSources(fn)
		if len(srcs) > 0 {
			k.visited[fn.RelString(nil)] = true
		}
		for _, s := range srcs {
			sites++
			what := fn.RelString(nil) + ": " + s.desc
			k.obligation("no-dropped-error", what)
			pos, why, steps := k.walkError(s)
			k.instrs += steps
			if pos == token.NoPos {
				k.ok++
				continue
			}
			at := s.fn.Pos()
			if s.call != nil {
				at = s.call.Pos()
			}
			k.violate("no-dropped-error", what, shortPos(k.prog, k.prog.fset.Position(at)), "the error of %v is lost on a path to %v: %v", s.desc, shortPos(k.prog, k.prog.fset.Position(pos)), why)
		}
	}
	k.extra["functions_with_errors"] = len(k.visited)
	k.extra["call_sites"] = sites
}

func init() {
	register(&propSpec{
		id: "C25", min: 40,
		rule:   "typestate analysis over the SSA form of every function: for every call that may yield an error (and every error parameter of a function with an error result), all control-flow paths on which it does are followed; the error, or a value made from it, must reach the function's error result, another error must be returned, or it must be handed to a logging, testing or other function before the path ends, whatever variables it moves through",
		assume: []string{"an error handed to a logging or testing function counts as reported", "errors.Is/As that recognise an error count as handling it"},
		run:    runC25,
	})
}
