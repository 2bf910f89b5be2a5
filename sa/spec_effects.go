package main

// Influences from outside: what a result could depend on apart from the arguments of a call.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ambient lists, per package, what is read from the surroundings. A leading ! lists exceptions from all of them.
var ambient = map[string][]string{
	"time":                   {"Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker", "Sleep", "LoadLocation", "(Time).Local", "Local"},
	"os":                     {"!", "Exit", "IsExist", "IsNotExist", "IsPermission", "IsTimeout", "Stderr", "Stdout", "(*File).Write", "(*File).WriteString", "Getpagesize", "NewSyscallError", "ErrExist", "ErrNotExist", "ErrInvalid", "ErrPermission"},
	"runtime":                {"!", "KeepAlive", "Caller", "Callers", "CallersFrames", "FuncForPC", "(*Func).Name", "(*Func).FileLine", "(*Func).Entry", "(*Frames).Next", "(*TypeAssertionError).Error", "(*PanicNilError).Error"},
	"runtime/debug":          {"!", "Stack", "PrintStack"},
	"math/rand":              {"!", "New", "NewSource", "NewZipf", "(*Rand).", "(*Zipf)."},
	"math/rand/v2":           {"!", "New", "NewPCG", "NewChaCha8", "NewZipf", "(*Rand).", "(*Zipf).", "(*PCG).", "(*ChaCha8)."},
	"golang.org/x/exp/rand":  {"!", "New", "NewSource", "NewZipf", "(*Rand).", "(*Zipf).", "(*LockedSource).", "(*PCGSource)."},
	"crypto/rand":            {"!"},
	"hash/maphash":           {"!"},
	"net":                    {"!"},
	"net/http":               {"!"},
	"syscall":                {"!"},
	"golang.org/x/sys/unix":  {"!"},
	"os/exec":                {"!"},
	"os/signal":              {"!"},
	"os/user":                {"!"},
	"io/ioutil":              {"!", "Discard", "NopCloser", "ReadAll"},
	"plugin":                 {"!"},
	"flag":                   {"!"},
	"expvar":                 {"!"},
	"runtime/cgo":            {"!"},
	"runtime/metrics":        {"!"},
	"weak":                   {"!"},
	"internal/cpu":           {"!"},
	"golang.org/x/sys/cpu":   {"!"},
	"testing":                {"Testing", "Short", "Verbose", "CoverMode", "Benchmark", "AllocsPerRun", "Init", "(*common).TempDir", "(*common).Setenv", "(*T).Setenv", "(*T).Deadline"},
	"path/filepath":          {"Abs", "EvalSymlinks", "Glob", "Walk", "WalkDir"},
	"sync":                   {"(*Pool).Get", "(*Mutex).TryLock", "(*RWMutex).TryLock", "(*RWMutex).TryRLock", "(*Map).Range"},
	"fmt":                    {"Scan", "Scanf", "Scanln"},
	"context":                {"WithTimeout", "WithDeadline", "WithTimeoutCause", "WithDeadlineCause", "AfterFunc"},
	"reflect":                {"(Value).Pointer", "(Value).UnsafePointer", "(Value).UnsafeAddr", "Select"},
	"sync/atomic":            nil,
	"gonum.org/v1/gonum/mat": nil,
}

// relName is the name of a function or variable within its package.
func relName(v ssa.Value) (pkg, name string) {
	switch x := v.(type) {
	case *ssa.Global:
		if x.Pkg != nil {
			return x.Pkg.Pkg.Path(), x.Name()
		}
	case *ssa.Function:
		f := x
		if o := f.Origin(); o != nil {
			f = o
		}
		pkg = fnPkgPath(f)
		name = f.Name()
		o := f.Object()
		if o == nil {
			return pkg, name
		}
		if r := o.Type().(*types.Signature).Recv(); r != nil {
			name = fmt.Sprintf("(%v).%v", types.TypeString(r.Type(), func(*types.Package) string { return "" }), o.Name())
		}
		return pkg, name
	}
	return "", ""
}

func isAmbient(pkg, name string) bool {
	l, ok := ambient[pkg]
	if !ok {
		return strings.HasPrefix(pkg, "net/") && pkg != "net/netip" && pkg != "net/url"
	}
	if len(l) == 0 {
		return false
	}
	except := l[0] == "!"
	if name == "init" {
		return false
	}
	for _, n := range l {
		if n == name || strings.HasSuffix(n, ").") && strings.HasPrefix(name, n) {
			return !except
		}
	}
	return except
}

func ambientMethod(c *ssa.CallCommon) (string, bool) {
	if !c.IsInvoke() || c.Method.Pkg() == nil {
		return "", false
	}
	t := types.TypeString(c.Value.Type(), func(*types.Package) string { return "" })
	n := fmt.Sprintf("(%v).%v", t, c.Method.Name())
	return c.Method.Pkg().Path() + "." + n, isAmbient(c.Method.Pkg().Path(), n)
}

func runC29(k *Check) {
	const rule = "outside-influence"
	k.scen = "all functions"
	prog := k.prog
	fns := prog.sourceFuncs()
	for fn := range ssautil.AllFunctions(prog.ssa) { // package initialisation
		if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && prog.isRepoPkg(fn.Pkg.Pkg.Path()) {
			fns = append(fns, fn)
		}
	}
	sort.SliceStable(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
	refs, pkgs := 0, map[string]int{}
	for _, fn := range fns {
		what := fn.RelString(nil)
		k.visited[what] = true
		report := func(in ssa.Instruction, f string, a ...any) {
			pos := in.Pos()
			if pos == token.NoPos {
				pos = fn.Pos()
			}
			k.violate(rule, what, shortPos(prog, prog.fset.Position(pos)), f, a...)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				k.instrs++
				bad := false
				switch x := in.(type) {
				case *ssa.Go:
					bad = true
					report(in, "a goroutine is started: the order of its effects depends on scheduling")
				case *ssa.Select:
					bad = true
					report(in, "select: the choice depends on scheduling")
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if to, ok := x.Type().Underlying().(*types.Basic); ok && to.Kind() == types.Uintptr {
							bad = true
							report(in, "an address is used as a number")
						}
					}
				case ssa.CallInstruction:
					if n, yes := ambientMethod(x.Common()); yes {
						bad = true
						report(in, "call of %v depends on more than its arguments", n)
					}
					if p := addressFormat(x.Common()); p != "" {
						bad = true
						report(in, "%v formats an address", p)
					}
				}
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					pkg, name := relName(*op)
					if pkg == "" || prog.isRepoPkg(pkg) {
						if f, ok := (*op).(*ssa.Function); ok && pkg != "" && len(f.Blocks) == 0 && f.Synthetic == "" && f.Origin() == nil && f.Object() != nil && f.Pos() != token.NoPos {
							prog.ensureBuilt(f)
							if len(f.Blocks) == 0 && f.TypeParams().Len() == 0 {
								bad = true
								report(in, "%v has no body in Go", f.RelString(nil))
							}
						}
						continue
					}
					refs++
					pkgs[pkg]++
					k.obligation(rule, what+": "+pkg+"."+name)
					if isAmbient(pkg, name) {
						bad = true
						report(in, "%v.%v depends on more than its arguments", pkg, name)
					} else {
						k.ok++
					}
				}
				_ = bad
			}
		}
		k.obligation(rule, what)
		k.ok++
	}
	k.scanGlobals(rule)
	k.extra["functions"] = len(fns)
	k.extra["references_to_other_packages"] = refs
	k.extra["packages"] = pkgs
}

// addressFormat recognises verbs that print addresses.
func addressFormat(c *ssa.CallCommon) string {
	fn := c.StaticCallee()
	if fn == nil || fnPkgPath(fn) != "fmt" {
		return ""
	}
	for _, a := range c.Args {
		if s, ok := a.(*ssa.Const); ok && s.Value != nil && s.Value.Kind() == constant.String && strings.Contains(strings.ReplaceAll(constant.StringVal(s.Value), "%%", ""), "%p") {
			return fn.RelString(nil)
		}
	}
	return ""
}

func init() {
	register(&propSpec{
		id: "C29", min: 300,
		rule:   "effect analysis over the SSA form of every function and package initialiser of the repository: no reference (call or value) to a function or variable of another package that reads the clock, random numbers, the environment, command line, files, network, process or runtime, no goroutine or select, no address used as a number or printed, no function without body; no memory reachable from package-level variables is written after initialisation (taint analysis)",
		assume: []string{"functions of other packages that are not in the list of ambient ones (DESIGN.md) depend on their arguments only", "iteration order of hash maps is the subject of C22", "objects handed in by the caller, e.g. solvers that are used twice, are arguments; see C15 for their state"},
		run:    runC29,
	})
}
