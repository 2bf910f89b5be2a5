package main

// Harness: scenarios, obligations, reports, evidence.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Scenario  string `json:"scenario"`
	Site      string `json:"site"`
	Detail    string `json:"detail"`
	Known     bool   `json:"known,omitempty"`
}

func (v *Violation) key() string { return v.Rule + " @ " + v.Construct }

type Check struct {
	prog    *Program
	prop    string
	tier    string
	seed    int
	thor    bool
	scen    string
	oblig   int
	ok      int
	perRule map[string]int
	viol    []*Violation
	samples []any
	sampled map[string]bool
	visited map[string]bool
	scens   int
	forks   int
	instrs  int
	extra   map[string]any
	assume  []string
	it      *Interp
	only    string
	anchor  string            // function a report is about, if its construct names none
	asserts map[string]string // implementations of assertions
	sites   map[string]string
}

type propSpec struct {
	id     string
	rule   string // the rule applied, for evidence
	min    int    // minimum number of obligations; fewer means the rule matched nothing
	assume []string
	run    func(k *Check)
}

var specs = map[string]*propSpec{}

func register(s *propSpec) { specs[s.id] = s }

func (k *Check) violate(rule, construct, site, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	if len(d) > 1500 {
		d = d[:1500] + "…"
	}
	if site == "?" || site == "" {
		site = k.siteOf(construct)
	}
	v := &Violation{Rule: rule, Construct: construct, Scenario: k.scen, Site: site, Detail: d}
	for _, w := range k.viol {
		if w.key() == v.key() && w.Site == v.Site {
			return // one report per rule, construct and site
		}
	}
	k.viol = append(k.viol, v)
	firstViolation.CompareAndSwap(0, time.Now().UnixNano())
}

// siteOf finds the declaration of the function a construct names.
func (k *Check) siteOf(construct string) string {
	name, _, _ := strings.Cut(strings.ReplaceAll(construct, ":", " "), " ")
	if k.prog == nil || name == "" {
		return "?"
	}
	if k.sites == nil {
		k.sites = map[string]string{}
		add := func(fn *ssa.Function) {
			if fn == nil || fn.Pkg == nil || fn.Synthetic != "" || !fn.Pos().IsValid() || !k.prog.isRepoPkg(fnPkgPath(fn)) {
				return
			}
			pos := shortPos(k.prog, k.prog.fset.Position(fn.Pos()))
			k.sites[fnName(fn)] = pos
			if old, dup := k.sites[fn.Name()]; !dup || pos < old {
				k.sites[fn.Name()] = pos
			}
		}
		for pkg := range k.prog.built {
			if !k.prog.isRepoPkg(pkg.Pkg.Path()) {
				continue
			}
			for _, m := range pkg.Members {
				switch x := m.(type) {
				case *ssa.Function:
					add(x)
				case *ssa.Type:
					for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := k.prog.ssa.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if !types.IsInterface(t) {
								add(k.prog.ssa.MethodValue(ms.At(i)))
							}
						}
					}
				}
			}
		}
	}
	known := func(name string) (string, bool) {
		if pos, ok := k.sites[name]; ok && (strings.Contains(name, "(") || name[:1] != strings.ToLower(name[:1])) {
			return pos, true
		}
		if _, m, ok := strings.Cut(name, "."); ok && m != "" && m[:1] != strings.ToLower(m[:1]) {
			pos, ok := k.sites[m]
			return pos, ok
		}
		return "", false
	}
	if pos, ok := known(name); ok {
		return pos
	}
	if pos, ok := k.sites[k.anchor]; ok {
		return pos
	}
	for _, word := range strings.Fields(construct) {
		if pos, ok := known(word); ok {
			return pos
		}
	}
	return "?"
}

func (k *Check) obligation(rule, construct string) {
	k.oblig++
	k.perRule[rule]++
	key := rule + construct
	if !k.sampled[key] && len(k.samples) < 40 {
		k.sampled[key] = true
		k.samples = append(k.samples, map[string]string{"rule": rule, "construct": construct, "scenario": k.scen})
	}
}

// scenario analyses f in a fresh abstract state. Everything that can't be decided is a violation.
func (k *Check) scenario(name string, f func(it *Interp)) {
	if k.only != "" && !strings.Contains(name, k.only) {
		return
	}
	k.scen = name
	k.scens++
	if exhausted.Load() {
		k.violate("undecided", "scenarios", "-", "%v", overBudget())
		return
	}
	begin := time.Now()
	facts = &Facts{}
	it := newInterp(k.prog)
	k.it = it
	if !k.thor {
		it.deadline = begin.Add(180 * time.Second)
	}
	defer func() {
		if d := time.Since(begin); os.Getenv("SA_TIMES") != "" && d > time.Second/2 {
			fmt.Printf("%6.2fs %v\n", d.Seconds(), name)
		}
		k.forks += it.forks
		k.instrs += it.steps
		for fn := range it.visited {
			if k.prog.isRepoPkg(fnPkgPath(fn)) {
				k.visited[fn.RelString(nil)] = true
			}
		}
		for _, px := range *it.fr.panics {
			k.violate("no-panic", px.trace, px.pos, "a panic is reachable: %v (when %v)", px.msg, px.ctx)
		}
		for _, e := range it.events {
			if e.kind == "div" {
				k.violate("no-division-by-zero", "division", e.pos, "%v (when %v)", e.msg, e.ctx)
			}
		}
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Unsupported:
				k.violate("undecided", it.trace(), it.pos(), "the analysis can't decide this: %v", x.Msg)
			case pathEnd:
				if len(*it.fr.panics) == 0 {
					k.violate("no-panic", "scenario", it.pos(), "no path survives")
				}
			default:
				k.violate("undecided", "analyser", it.pos(), "internal failure: %v\n%s", r, debug.Stack())
			}
		}
	}()
	it.initPkg(k.prog.def)
	f(it)
}

// try runs f and reports whether the path survived; panics recorded meanwhile are returned.
func (k *Check) try(f func()) (alive bool, panics []panicExit) {
	it := k.it
	save := *it.fr.panics
	*it.fr.panics = nil
	alive = it.catching(f)
	panics = *it.fr.panics
	*it.fr.panics = save
	return alive, panics
}

func simplify(c *Ctx, p *Poly) *Poly { return c.applyEqs(p) }

func (k *Check) eq(rule, construct, what string, got V, want V) bool {
	if w, ok := want.(*Poly); ok {
		want = Num{w}
	}
	if g, ok := got.(*Poly); ok {
		got = Num{g}
	}
	it := k.it
	k.obligation(rule, construct)
	good := true
	it.ctx().leavesAll(func(c *Ctx, l []V) {
		if !good {
			return
		}
		a, b := l[0], l[1]
		x, okx := a.(Num)
		y, oky := b.(Num)
		if okx && oky {
			if !numEq(c, x.p, y.p) {
				good = false
				k.violate(rule, construct, k.site(got), "%v is %v, must be %v (when %v)", what, c.applyEqs(x.p), c.applyEqs(y.p), c)
			}
			return
		}
		if !leafEq(c, a, b) {
			good = false
			k.violate(rule, construct, k.site(got), "%v is %v, must be %v (when %v)", what, show(a), show(b), c)
		}
	}, it.ctx().restrict(got), it.ctx().restrict(want))
	if good {
		k.ok++
	}
	return good
}

// siteHint is set by helpers that know where the inspected value was written.
var siteHint string

func (k *Check) site(V) string {
	if siteHint != "" {
		return siteHint
	}
	return k.it.pos()
}

func numEq(c *Ctx, x, y *Poly) bool {
	if x == y || x.Key() == y.Key() {
		return true
	}
	d := x.Sub(y)
	if d.IsZero() {
		return true
	}
	e := c.applyEqs(d)
	if e.IsZero() {
		return true
	}
	if s, ok := c.sign(e); ok && s == 0 {
		return true
	}
	return false
}

func leafEq(c *Ctx, a, b V) bool {
	if same(a, b) {
		return true
	}
	switch x := a.(type) {
	case *SymStr:
		if y, ok := b.(Str); ok {
			for _, l := range c.lits {
				if l.a.kind == "streq" && l.v && l.a.s == x && l.a.s2 == any(y.s) {
					return true
				}
			}
		}
	case Str:
		if y, ok := b.(*SymStr); ok {
			return leafEq(c, y, x)
		}
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !leafEqV(c, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case Num:
		if y, ok := b.(Num); ok {
			return numEq(c, x.p, y.p)
		}
	}
	return false
}

func leafEqV(c *Ctx, a, b V) bool {
	good := true
	c.leavesAll(func(c *Ctx, l []V) {
		if good && !leafEq(c, l[0], l[1]) {
			good = false
		}
	}, c.restrict(a), c.restrict(b))
	return good
}

// holds demands that the gated boolean is true in every context.
func (k *Check) holds(rule, construct, what string, got V) bool {
	return k.eq(rule, construct, what, got, Bool(true))
}

func (k *Check) fail(rule, construct, format string, a ...any) {
	k.obligation(rule, construct)
	k.violate(rule, construct, k.it.pos(), format, a...)
}

func (k *Check) pass(rule, construct string) {
	k.obligation(rule, construct)
	k.ok++
}

func (k *Check) expect(rule, construct string, cond bool, format string, a ...any) bool {
	if cond {
		k.pass(rule, construct)
	} else {
		k.fail(rule, construct, format, a...)
	}
	return cond
}

// errNil demands err == nil everywhere.
func (k *Check) errNil(rule, construct, what string, err V) bool {
	return k.eq(rule, construct, what+" reports no error", isNil(k.it.ctx(), k.it.ctx().restrict(err)), Bool(true))
}

// errSet demands err != nil everywhere.
func (k *Check) errSet(rule, construct, what string, err V) bool {
	return k.eq(rule, construct, what+" reports an error", k.it.ctx().not(isNil(k.it.ctx(), k.it.ctx().restrict(err))), Bool(true))
}

// world helpers ---------------------------------------------------------------

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	unsupported("field %v not found in %v (unresolved anchor)", name, s)
	return -1
}

type fields map[string]V

// mkStruct builds a struct value of a type of the analysed program; promoted fields are found too.
func (it *Interp) mkStruct(t types.Type, fs fields) V {
	v := it.zero(t)
	for n, x := range fs {
		v = it.setField(v, t, n, x)
	}
	return v
}

func fieldPath(t types.Type, name string) ([]int, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	if obj == nil {
		// also unexported
		if n, ok := t.(*types.Named); ok {
			obj, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	vr, ok := obj.(*types.Var)
	if !ok {
		unsupported("field %v not found in %v (unresolved anchor)", name, t)
	}
	return idx, vr.Type()
}

func (it *Interp) setField(v V, t types.Type, name string, x V) V {
	idx, _ := fieldPath(t, name)
	return it.setPath(v, idx, x)
}

func (it *Interp) field(v V, t types.Type, name string) V {
	idx, _ := fieldPath(t, name)
	return it.getPath(v, idx)
}

func (it *Interp) call1(name string, args ...V) V {
	return it.callFn(it.prog.fn(name), args, nil, nil)
}

// call2 calls a function with two results.
func (it *Interp) call2(name string, args ...V) (V, V) {
	return it.split(it.callFn(it.prog.fn(name), args, nil, nil))
}

func (it *Interp) split(t V) (V, V) {
	return it.part(t, 0), it.part(t, 1)
}

func (it *Interp) part(t V, i int) V {
	return it.ctx().apply(func(_ *Ctx, l []V) V { return l[0].(Tuple).e[i] }, t)
}

func (it *Interp) newMap(kv ...V) MapRef {
	m := &MapVal{}
	for i := 0; i+1 < len(kv); i += 2 {
		m.ents = append(m.ents, MapEnt{kv[i], kv[i+1], Bool(true)})
	}
	return MapRef{it.alloc("map", nil, m)}
}

func num(p *Poly) V { return Num{p} }

// reporting ----------------------------------------------------------------------

func knownFindings(root, prop string) map[string]bool {
	r := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if rest, ok := strings.CutPrefix(l, "finding: property="+prop+" "); ok {
			r[rest] = true
		}
	}
	return r
}

func (k *Check) finish(verif string, spec *propSpec, start time.Time) int {
	if k.only == "" && k.oblig < spec.min {
		k.violate("instances", "rule coverage", "-", "only %d obligations, at least %d were confirmed by hand: the rule no longer finds its constructs", k.oblig, spec.min)
	}
	known := knownFindings(verif, k.prop)
	bad := 0
	for _, v := range k.viol {
		if known[v.key()] {
			v.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.prop, v.key())
		} else {
			bad++
		}
	}
	var fns []string
	for f := range k.visited {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":               spec.rule,
		"rule":                      spec.rule,
		"obligations":               k.oblig,
		"discharged":                k.ok,
		"obligations_per_rule":      k.perRule,
		"scenarios":                 k.scens,
		"functions_analysed":        fns,
		"instructions":              k.instrs,
		"undecided_branches_merged": k.forks,
		"samples":                   k.samples,
	}
	for n, v := range k.extra {
		cov[n] = v
	}
	ev := map[string]any{
		"property": k.prop, "tier": k.tier, "seed": k.seed, "level": "other",
		"coverage": cov, "assumptions": append(append([]string{}, spec.assume...), k.assume...),
		"wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, k.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	rep := filepath.Join(dir, k.prop+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s (%s): %d obligations, %d discharged, %d scenarios, %d functions, %d instructions, %.1fs\n", k.prop, k.tier, k.oblig, k.ok, k.scens, len(fns), k.instrs, time.Since(start).Seconds())
	for _, v := range k.viol {
		mark := "VIOLATED"
		if v.Known {
			mark = "known"
		}
		fmt.Fprintf(&sb, "%s: %s: rule %s: %s\n    %s\n    scenario: %s\n", mark, v.Site, v.Rule, v.Construct, v.Detail, v.Scenario)
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	if bad > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", k.prop, rep)
		return 1
	}
	return 0
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return fn.RelString(fn.Pkg.Pkg)
}

func envInt(n string) int {
	i, _ := strconv.Atoi(os.Getenv(n))
	return i
}
