package main

// Package-level state. An interprocedural, flow-insensitive and field-based taint analysis: memory reachable
// from package-level variables must never be written once the program is initialised. References are
// tracked through assignments, fields, slices, maps, closures, calls and results.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type taintAn struct {
	prog    *Program
	fns     []*ssa.Function
	inSet   map[*ssa.Function]bool
	taken   map[string][]*ssa.Function // functions used as values, by signature
	methods map[string][]*ssa.Function // methods by name
	vals    map[ssa.Value]string       // tainted value -> variable it stems from
	locs    map[string]string          // tainted memory location class -> variable
	rets    map[*ssa.Function]map[int]string
	fields  map[types.Type]bool
	refs    map[types.Type]bool
	lazy    map[*ssa.Global]bool // hold the result of sync.OnceValue
	changed bool
	sinks   map[string]taintSink
}

type taintSink struct {
	fn  *ssa.Function
	in  ssa.Instruction
	msg string
}

// hasRefs tells if values of the type can refer to memory that can be modified through them.
func (t *taintAn) hasRefs(ty types.Type) bool {
	if r, ok := t.refs[ty]; ok {
		return r
	}
	t.refs[ty] = true // recursive types do
	r := true
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		r = u.Kind() == types.UnsafePointer
	case *types.Struct:
		r = false
		for i := 0; i < u.NumFields(); i++ {
			r = r || t.hasRefs(u.Field(i).Type())
		}
	case *types.Array:
		r = t.hasRefs(u.Elem())
	case *types.Tuple:
		r = false
		for i := 0; i < u.Len(); i++ {
			r = r || t.hasRefs(u.At(i).Type())
		}
	}
	t.refs[ty] = r
	return r
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (t *taintAn) val(v ssa.Value, why string) {
	if why == "" || v == nil {
		return
	}
	if _, ok := t.vals[v]; ok {
		return
	}
	if !t.hasRefs(v.Type()) {
		return
	}
	t.vals[v] = why
	t.changed = true
	t.markFields(v.Type(), why)
}

func (t *taintAn) loc(key, why string) {
	if why == "" {
		return
	}
	if _, ok := t.locs[key]; !ok {
		t.locs[key] = why
		t.changed = true
	}
}

// markFields: a tainted struct value may be stored anywhere; its fields refer to tainted memory then.
func (t *taintAn) markFields(ty types.Type, why string) {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i).Type()
			if t.hasRefs(f) {
				t.loc(fieldKey(ty, i), why)
				t.loc("F:"+typeKey(f), why)
				t.markFields(f, why)
			}
		}
	case *types.Array:
		if t.hasRefs(u.Elem()) {
			t.loc("E:"+typeKey(u.Elem()), why)
			t.markFields(u.Elem(), why)
		}
	}
}

func fieldKey(ty types.Type, i int) string { return fmt.Sprintf("S:%s.%d", typeKey(ty), i) }

func pointee(ty types.Type) types.Type {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return ty
}

// keys of the memory an address denotes: where stores leave their mark, and what loads look at.
func (t *taintAn) addrKeys(a ssa.Value) (store, load []string) {
	el := typeKey(pointee(a.Type()))
	switch x := a.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(pointee(x.X.Type()), x.Field)
		return []string{k, "F:" + el}, []string{k, "P:" + el}
	case *ssa.IndexAddr:
		k := "E:" + el
		return []string{k, "F:" + el}, []string{k, "P:" + el}
	case *ssa.Alloc:
		k := fmt.Sprintf("A:%p", x)
		return []string{k, "F:" + el}, []string{k, "P:" + el}
	}
	return []string{"P:" + el}, []string{"P:" + el, "F:" + el}
}

func (t *taintAn) loaded(keys []string) string {
	for _, k := range keys {
		if w := t.locs[k]; w != "" {
			return w
		}
	}
	return ""
}

func (t *taintAn) sink(fn *ssa.Function, in ssa.Instruction, why, msg string) {
	if why == "" {
		return
	}
	s := "package-level variable " + why + ": " + msg
	t.sinks[fmt.Sprintf("%p", in)+s] = taintSink{fn, in, s}
}

func (t *taintAn) of(v ssa.Value) string {
	if g, ok := v.(*ssa.Global); ok {
		if t.isOurs(g) {
			return g.Name()
		}
		return ""
	}
	return t.vals[v]
}

func (t *taintAn) isOurs(g *ssa.Global) bool {
	return g.Pkg != nil && t.prog.isRepoPkg(g.Pkg.Pkg.Path()) && !strings.HasPrefix(g.Name(), "init$")
}

func isPkgInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

func newTaint(prog *Program) *taintAn {
	t := &taintAn{prog: prog, inSet: map[*ssa.Function]bool{}, taken: map[string][]*ssa.Function{}, methods: map[string][]*ssa.Function{},
		vals: map[ssa.Value]string{}, locs: map[string]string{}, rets: map[*ssa.Function]map[int]string{}, refs: map[types.Type]bool{},
		lazy: map[*ssa.Global]bool{}, sinks: map[string]taintSink{}}
	// All functions of the repository and the instances of generic library functions they use
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		pkg := fnPkgPath(fn)
		if !(prog.isRepoPkg(pkg) || interpretablePkgs[pkg] || isMethodWrapper(fn)) {
			return
		}
		prog.ensureBuilt(fn)
		if len(fn.Blocks) == 0 || fn.TypeParams().Len() > len(fn.TypeArgs()) {
			return
		}
		t.inSet[fn] = true
		t.fns = append(t.fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != ssa.Value(f) {
							t.take(f)
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	all := ssautil.AllFunctions(prog.ssa)
	var list []*ssa.Function
	for fn := range all {
		if prog.isRepoPkg(fnPkgPath(fn)) {
			list = append(list, fn)
		}
	}
	sort.Slice(list, func(i, j int) bool {
		return list[i].String() < list[j].String() || list[i].String() == list[j].String() && list[i].Pos() < list[j].Pos()
	})
	for _, fn := range list {
		add(fn)
	}
	for _, fn := range t.fns {
		if fn.Signature.Recv() != nil {
			t.methods[fn.Name()] = append(t.methods[fn.Name()], fn)
		}
		if isPkgInit(fn) {
			t.initFunc(fn)
		}
	}
	return t
}

func (t *taintAn) take(f *ssa.Function) {
	k := sigKey(f.Signature)
	for _, g := range t.taken[k] {
		if g == f {
			return
		}
	}
	t.taken[k] = append(t.taken[k], f)
}

func sigKey(s *types.Signature) string {
	return typeKey(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
}

// initFunc: closures made while initialising a package may be kept in its variables, and with them
// everything they capture.
func (t *taintAn) initFunc(fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !t.inSet[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok {
					for _, v := range m.Fn.(*ssa.Function).FreeVars {
						t.val(v, "initialised in "+fn.Pkg.Pkg.Name())
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && t.isOurs(g) {
						if c, ok := s.Val.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().String(), "sync.OnceValue") {
							t.lazy[g] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
}

func (t *taintAn) run() {
	for round := 0; round < 200; round++ {
		t.changed = false
		for _, fn := range t.fns {
			if !isPkgInit(fn) {
				t.function(fn)
			}
		}
		if !t.changed {
			return
		}
	}
	unsupported("the analysis of package-level variables doesn't terminate")
}

func (t *taintAn) function(fn *ssa.Function) {
	once := onceOnly(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			t.instr(fn, in, once)
		}
	}
}

// onceOnly tells if a function literal is only used as the argument of sync.Once.Do and the like.
func onceOnly(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		refs := f.Referrers()
		if f.Parent() != nil && refs != nil {
			n := 0
			for _, r := range *refs {
				uses := []ssa.Instruction{r}
				if m, ok := r.(*ssa.MakeClosure); ok {
					uses = *m.Referrers()
				}
				for _, u := range uses {
					c, ok := u.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil || !strings.HasPrefix(c.Common().StaticCallee().String(), "(*sync.Once).Do") {
						if _, dbg := u.(*ssa.DebugRef); !dbg {
							n = -1000
						}
						continue
					}
					n++
				}
			}
			if n > 0 {
				return true
			}
		}
	}
	return false
}

func (t *taintAn) instr(fn *ssa.Function, in ssa.Instruction, once bool) {
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op.String() != "*" {
			return
		}
		if g, ok := x.X.(*ssa.Global); ok {
			t.val(x, t.of(g))
			return
		}
		t.val(x, t.of(x.X))
		_, keys := t.addrKeys(x.X)
		t.val(x, t.loaded(keys))
	case *ssa.FieldAddr:
		t.val(x, t.of(x.X))
	case *ssa.IndexAddr:
		t.val(x, t.of(x.X))
	case *ssa.Field:
		t.val(x, t.of(x.X))
		t.val(x, t.locs[fieldKey(x.X.Type(), x.Field)])
	case *ssa.Index:
		t.val(x, t.of(x.X))
	case *ssa.Slice:
		t.val(x, t.of(x.X))
	case *ssa.SliceToArrayPointer:
		t.val(x, t.of(x.X))
	case *ssa.ChangeType:
		t.val(x, t.of(x.X))
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok {
			if _, ok := x.Type().Underlying().(*types.Basic); !ok {
				t.val(x, t.of(x.X))
			}
		}
	case *ssa.MultiConvert:
		t.val(x, t.of(x.X))
	case *ssa.ChangeInterface:
		t.val(x, t.of(x.X))
	case *ssa.MakeInterface:
		t.val(x, t.of(x.X))
	case *ssa.TypeAssert:
		t.val(x, t.of(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.val(x, t.of(e))
		}
	case *ssa.Lookup:
		t.val(x, t.of(x.X))
		t.val(x, t.locs["M:"+typeKey(x.X.Type().Underlying())])
	case *ssa.Range:
		t.val(x, t.of(x.X))
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if w := t.locs["M:"+typeKey(x.X.Type().Underlying())]; w != "" && t.vals[x] == "" {
				t.vals[x] = w
				t.changed = true
			}
			if w := t.of(x.X); w != "" && t.vals[x] == "" {
				t.vals[x] = w
				t.changed = true
			}
		}
	case *ssa.Next:
		if w := t.vals[x.Iter]; w != "" {
			t.val(x, w)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			t.result(fn, c, x, x.Index)
			return
		}
		t.val(x, t.of(x.Tuple))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			t.val(f.FreeVars[i], t.of(b))
		}
	case *ssa.Store:
		if w := t.of(x.Addr); w != "" && !once {
			t.sink(fn, in, w, "is written")
		}
		if w := t.of(x.Val); w != "" {
			keys, _ := t.addrKeys(x.Addr)
			for _, k := range keys {
				t.loc(k, w)
			}
		}
	case *ssa.MapUpdate:
		if w := t.of(x.Map); w != "" && !once {
			t.sink(fn, in, w, "the map is modified")
		}
		for _, v := range []ssa.Value{x.Key, x.Value} {
			t.loc2("M:"+typeKey(x.Map.Type().Underlying()), v)
		}
	case *ssa.Send:
		t.sink(fn, in, t.of(x.X), "is sent to a channel")
	case *ssa.Return:
		for i, r := range x.Results {
			if w := t.of(r); w != "" && t.hasRefs(r.Type()) {
				m := t.rets[fn]
				if m == nil {
					m = map[int]string{}
					t.rets[fn] = m
				}
				if m[i] == "" {
					m[i] = w
					t.changed = true
				}
				if t.exported(fn) {
					t.sink(fn, in, w, "is returned to the callers of the package, who may modify it")
				}
			}
		}
	case ssa.CallInstruction:
		t.callInstr(fn, x, once)
	}
}

func (t *taintAn) loc2(key string, v ssa.Value) {
	if w := t.of(v); w != "" && t.hasRefs(v.Type()) {
		t.loc(key, w)
	}
}

// exported: results of exported functions and methods that users of the package can modify directly,
// i.e. slices, maps and pointers to structs with exported fields.
func (t *taintAn) exported(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || !t.prog.isRepoPkg(fnPkgPath(fn)) {
		return false
	}
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch res.At(i).Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Pointer:
			return true
		}
	}
	return false
}

func (t *taintAn) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if t.inSet[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		iface, _ := c.Value.Type().Underlying().(*types.Interface)
		var r []*ssa.Function
		for _, m := range t.methods[c.Method.Name()] {
			if iface != nil && types.Implements(m.Signature.Recv().Type(), iface) {
				r = append(r, m)
			}
		}
		return r
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return t.taken[sigKey(c.Signature())]
}

func (t *taintAn) result(fn *ssa.Function, c *ssa.Call, v ssa.Value, i int) {
	for _, f := range t.callees(&c.Call) {
		t.val(v, t.rets[f][i])
	}
	if l, ok := c.Call.Value.(*ssa.UnOp); ok {
		if g, ok := l.X.(*ssa.Global); ok && t.lazy[g] {
			t.val(v, g.Name())
		}
	}
}

func (t *taintAn) callInstr(fn *ssa.Function, in ssa.CallInstruction, once bool) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		t.builtin(fn, in, b.Name(), once)
		return
	}
	fs := t.callees(c)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	for _, f := range fs {
		for i, a := range args {
			if i < len(f.Params) {
				t.val(f.Params[i], t.of(a))
			}
		}
	}
	if call, ok := in.(*ssa.Call); ok {
		if c.Signature().Results().Len() == 1 {
			t.result(fn, call, call, 0)
		}
	}
	if st := c.StaticCallee(); len(fs) == 0 || (st == nil && !c.IsInvoke()) || c.IsInvoke() {
		if len(fs) > 0 && st == nil {
			return // dynamic calls end in the repository
		}
		name := ""
		recv := false
		if st != nil {
			name = st.String()
			recv = st.Signature.Recv() != nil
		} else if c.IsInvoke() {
			name, recv = c.Method.FullName(), true
		}
		for i, a := range args {
			w := t.of(a)
			if w == "" || !t.hasRefs(a.Type()) || readOnlyCall(name) {
				continue
			}
			if recv && i > 0 && strings.Contains(name, matPath+".") {
				continue // operands
			}
			if name == "encoding/json.Unmarshal" && i == 0 {
				continue
			}
			t.sink(fn, in, w, "is passed to "+name)
		}
	}
}

func (t *taintAn) builtin(fn *ssa.Function, in ssa.CallInstruction, name string, once bool) {
	c := in.Common()
	bad := func(v ssa.Value) {
		if !once {
			t.sink(fn, in, t.of(v), "is modified by "+name)
		}
	}
	switch name {
	case "append":
		fresh := false
		if s, ok := c.Args[0].(*ssa.Slice); ok && s.Max != nil && s.High != nil {
			fresh = s.Max == s.High || constEq(s.Max, s.High)
		}
		if !fresh {
			bad(c.Args[0])
			t.val(in.(ssa.Value), t.of(c.Args[0]))
		}
		if len(c.Args) > 1 {
			t.elements(c.Args[1])
		}
	case "copy":
		bad(c.Args[0])
		t.elements(c.Args[1])
	case "delete", "clear":
		bad(c.Args[0])
	}
}

// elements: the elements of v are copied.
func (t *taintAn) elements(v ssa.Value) {
	s, ok := v.Type().Underlying().(*types.Slice)
	if ok && t.hasRefs(s.Elem()) && t.of(v) != "" {
		t.loc("E:"+typeKey(s.Elem()), t.of(v))
		t.loc("F:"+typeKey(s.Elem()), t.of(v))
		t.markFields(s.Elem(), t.of(v))
	}
}

func constEq(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Int64() == y.Int64()
}

// functions of the standard library that don't modify what they are given and are safe for concurrent use
func readOnlyCall(name string) bool {
	for _, p := range []string{"(*regexp.Regexp).", "regexp.", "strings.", "strconv.", "unicode", "math.", "bytes.", "fmt.", "errors.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.BinarySearch",
		"maps.Keys", "maps.Clone", "maps.clone", "maps.Values", "maps.All", "(error).Error", "(fmt.Stringer).String", "(*strings.Replacer).", "log.Print", "log.Panic", "log.Fatal", "(*log.Logger).Print", "sort.Search",
		"(*testing.", "(testing.", "(*sync.Mutex).", "(*sync.RWMutex).", "(*sync.Once).", "reflect.DeepEqual", "encoding/json.Marshal", "(reflect.Type)", "reflect.TypeOf"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// scanGlobals: who writes package-level variables, starts goroutines or changes process-wide settings?
func (k *Check) scanGlobals(rule string) {
	prog := k.prog
	ng := 0
	for _, p := range prog.repoPkgs() {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				ng++
			}
		}
	}
	t := newTaint(prog)
	t.run()
	bad := map[*ssa.Function]bool{}
	report := func(fn *ssa.Function, in ssa.Instruction, f string, a ...any) {
		bad[fn] = true
		k.violate(rule, fn.RelString(nil), shortPos(prog, prog.fset.Position(in.Pos())), f, a...)
	}
	var keys []string
	for s := range t.sinks {
		keys = append(keys, s)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := t.sinks[keys[i]], t.sinks[keys[j]]
		return a.in.Pos() < b.in.Pos() || a.in.Pos() == b.in.Pos() && a.msg < b.msg
	})
	for _, s := range keys {
		report(t.sinks[s].fn, t.sinks[s].in, "%s", t.sinks[s].msg)
	}
	settings := []string{"log.Set", "os.Setenv", "os.Unsetenv", "os.Clearenv", "os.Chdir", "math/rand.Seed", "runtime.GOMAXPROCS", "runtime/debug.Set", "flag.", "syscall.", "expvar."}
	for _, fn := range prog.sourceFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					report(fn, in, "goroutine started")
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && !prog.isRepoPkg(fnPkgPath(c)) {
						name := c.RelString(nil)
						for _, s := range settings {
							if strings.HasPrefix(name, s) {
								report(fn, in, "call of %v changes process-wide state", name)
							}
						}
					}
				}
			}
		}
	}
	for _, fn := range t.fns {
		k.obligation(rule, fn.RelString(nil))
		if !bad[fn] {
			k.ok++
		}
	}
	k.extra["package_level_variables"] = ng
	k.extra["functions_scanned"] = len(t.fns)
	k.extra["values_reaching_package_level_state"] = len(t.vals)
}
