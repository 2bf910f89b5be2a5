package main

// Test expectations (package integr) and the names of degrees of freedom and quantities.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	m := models
	fails := func(fatal bool) modelFn {
		return func(it *Interp, fn *ssa.Function, a []V) V {
			it.event("testfail", fn.Name())
			if fatal {
				it.throwVal(Iface{}, "end of test", true)
			}
			return nil
		}
	}
	for _, recv := range []string{"(*testing.common).", "(*testing.T)."} {
		for _, n := range []string{"Errorf", "Error", "Fail"} {
			m[recv+n] = fails(false)
		}
		for _, n := range []string{"Fatalf", "Fatal", "FailNow"} {
			m[recv+n] = fails(true)
		}
		for _, n := range []string{"Skip", "Skipf", "SkipNow"} {
			m[recv+n] = func(it *Interp, fn *ssa.Function, a []V) V {
				it.throwVal(Iface{}, "end of test", true)
				return nil
			}
		}
		for _, n := range []string{"Helper", "Log", "Logf", "Parallel", "Cleanup"} {
			m[recv+n] = noop
		}
		m[recv+"Name"] = opaqueText
		m[recv+"Run"] = func(it *Interp, fn *ssa.Function, a []V) V {
			it.callValue(a[2], []V{a[0]}, nil)
			return Bool(true)
		}
	}
	// Patterns: constants are compiled, unknown ones are valid or not, and match or not, consistently.
	pattern := func(it *Interp, v V) V {
		return Ptr{o: it.alloc("regexp", nil, &NativeObj{name: "regexp", data: v})}
	}
	compile := func(v V) (valid V) {
		if s, ok := v.(Str); ok {
			_, err := regexp.Compile(s.s)
			return Bool(err == nil)
		}
		return atomBool(opaqueAtom("valid pattern " + strKey(v)))
	}
	m["regexp.Compile"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(s V) V {
			valid := compile(s)
			c := it.ctx()
			p := pattern(it, s)
			return Tuple{[]V{c.ite(valid, p, Ptr{}), c.ite(valid, Iface{}, errValue(it, "error parsing regexp", nil))}}
		})
	}
	m["regexp.MustCompile"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(s V) V {
			return it.lift(compile(s), func(ok V) V {
				if !bool(ok.(Bool)) {
					it.throw("regexp.MustCompile of an invalid pattern")
				}
				return pattern(it, s)
			})
		})
	}
	matches := func(p, s V) V {
		x, ok1 := p.(Str)
		y, ok2 := s.(Str)
		if ok1 && ok2 {
			r, err := regexp.Compile(x.s)
			return Bool(err == nil && r.MatchString(y.s))
		}
		return atomBool(opaqueAtom("match " + strKey(p) + " " + strKey(s)))
	}
	patOf := func(it *Interp, v V) V {
		p := v.(Ptr)
		if p.o == nil {
			it.throw("nil *regexp.Regexp")
		}
		return it.content(p.o).(*NativeObj).data.(V)
	}
	m["(*regexp.Regexp).MatchString"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(p, s V) V { return matches(patOf(it, p), s) })
	}
	m["regexp.MatchString"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift2(a[0], a[1], func(p, s V) V {
			c := it.ctx()
			valid := compile(p)
			return Tuple{[]V{c.and(valid, matches(p, s)), c.ite(valid, Iface{}, errValue(it, "error parsing regexp", nil))}}
		})
	}
	m["(*regexp.Regexp).String"] = func(it *Interp, fn *ssa.Function, a []V) V {
		return it.lift(a[0], func(p V) V { return patOf(it, p) })
	}
}

const expectFn = "ExpectationsFromJSON"

func (k *Check) integr(name string) *ssa.Function {
	if k.prog.integ == nil {
		unsupported("package %v not found", integrPath)
	}
	fn := k.prog.integ.Func(name)
	if fn == nil {
		unsupported("exported function integr.%v not found (unresolved anchor)", name)
	}
	return fn
}

func (k *Check) expectations(doc *JNode) (list, err V) {
	it := k.it
	it.initPkg(k.prog.integ)
	return it.split(it.callFn(k.integr(expectFn), []V{&JData{n: doc}}, nil, nil))
}

// ctxBool is the condition of a context as a value.
func (it *Interp) ctxBool(c *Ctx) V {
	r := V(Bool(true))
	for _, l := range c.lits {
		v := atomBool(l.a)
		if !l.v {
			v = it.not(v)
		}
		r = it.ctx().and(r, v)
	}
	return r
}

// failing runs assertions and yields the condition under which they report a failure.
func (k *Check) failing(construct string, f func(t V)) V {
	it := k.it
	tt := it.prog.extType("testing", "T")
	base := it.st
	n := len(it.events)
	it.st = base.child(base.ctx)
	t := it.ptrTo("testing.T", tt, it.zero(tt))
	_, ps := k.try(func() { f(t) })
	it.st = base
	for _, p := range ps {
		if !p.goexit {
			k.violate("no-panic", construct, p.pos, "evaluating expectations panics: %v (when %v)", p.msg, p.ctx)
		}
	}
	r := V(Bool(false))
	for _, e := range it.events[n:] {
		if e.kind == "testfail" {
			r = it.any(r, it.ctxBool(e.ctx))
		}
	}
	return it.ctx().restrict(r)
}

// stubResult is a result with the given values; everything else is an error.
type stubResult struct {
	primary, reaction map[string]*Poly // node/dof
	inter             map[string]V     // element/quantity -> sequence
	queried           map[string]bool
}

func (r *stubResult) value(it *Interp) V {
	r.queried = map[string]bool{}
	n := &NativeObj{name: "stubResult"}
	n.implements = func(*types.Interface) bool { return true }
	nodal := func(what string, m map[string]*Poly) func(it *Interp, a []V) V {
		return func(it *Interp, a []V) V {
			nv := it.prog.typ("NodalValue")
			return it.ctx().apply(func(_ *Ctx, l []V) V {
				idx := l[0]
				node, ok1 := it.field(idx, it.prog.typ("Index"), "NodalID").(Str)
				dof, ok2 := toInt(it.field(idx, it.prog.typ("Index"), "Dof"))
				if !ok1 || !ok2 {
					unsupported("query of an unknown index %v", show(idx))
				}
				key := ""
				for _, d := range allDofs {
					if it.prog.constInt(d) == dof {
						key = node.s + "/" + d
					}
				}
				r.queried[what+" "+key] = true
				if v, ok := m[key]; ok {
					return Tuple{[]V{it.mkStruct(nv, fields{"Index": idx, "Value": num(v)}), Iface{}}}
				}
				return Tuple{[]V{it.zero(nv), errValue(it, "unknown index", nil)}}
			}, a[0])
		}
	}
	n.methods = map[string]func(it *Interp, a []V) V{
		"Primary":  nodal("primary", r.primary),
		"Reaction": nodal("reaction", r.reaction),
		"Interpolate": func(it *Interp, a []V) V {
			ip := it.prog.typ("Interpolation")
			return it.ctx().apply(func(_ *Ctx, l []V) V {
				id, ok1 := l[0].(Str)
				q, ok2 := toInt(l[1])
				if !ok1 || !ok2 {
					unsupported("query of an unknown interpolation")
				}
				key := ""
				for _, f := range allFcts {
					if it.prog.constInt(f) == q {
						key = id.s + "/" + f
					}
				}
				r.queried["interpolation "+key] = true
				if s, ok := r.inter[key]; ok {
					return Tuple{[]V{it.mkStruct(ip, fields{"Element": id, "Quantity": Int(q), "Piecewise": s}), Iface{}}}
				}
				return Tuple{[]V{it.zero(ip), errValue(it, "unknown interpolation", nil)}}
			}, a[0], a[1])
		},
	}
	return nativeIface(n)
}

// assertion evaluates all expectations the way the test driver does.
func (k *Check) assertion(list, res, err V) V {
	it := k.it
	return k.failing(expectFn, func(t V) {
		it.lift(list, func(l V) V {
			for _, e := range it.elems(l.(Slice)) {
				k.anchorAt(e, "Failure")
				it.callMethod(e, "Failure", err, t)
				if res != nil {
					for _, m := range []string{"Primary", "Reaction", "Interpolated"} {
						k.anchorAt(e, m)
					}
					it.callMethod(e, "Primary", res, t)
					it.callMethod(e, "Reaction", res, t)
					it.callMethod(e, "Interpolated", res, t)
				}
			}
			return nil
		})
	})
}

// anchorAt remembers where assertions of a kind are implemented, for reports.
func (k *Check) anchorAt(e V, method string) {
	if fn := k.it.methodFn(e, method); fn != nil && fn.Synthetic == "" {
		if k.asserts == nil {
			k.asserts = map[string]string{}
		}
		k.asserts[method] = fnName(fn)
	}
}

func (k *Check) reports(rule, construct, what string, failed V, want bool) bool {
	switch {
	case strings.HasPrefix(construct, "primary"):
		k.anchor = k.asserts["Primary"]
	case strings.HasPrefix(construct, "reaction"):
		k.anchor = k.asserts["Reaction"]
	case strings.Contains(rule, "failure"):
		k.anchor = k.asserts["Failure"]
	default:
		k.anchor = k.asserts["Interpolated"]
	}
	defer func() { k.anchor = "" }()
	verb := "is reported"
	if !want {
		verb = "is not reported"
	}
	return k.eq(rule, construct, what+" "+verb, k.it.ctx().restrict(failed), Bool(want))
}

func expDoc(kv ...any) *JNode { return jobj("expected", jobj(kv...)) }

// value/deviation pairs
type sampleVal struct {
	what string
	v    *Poly
}

func samples() []sampleVal {
	one := intPoly(1)
	return []sampleVal{
		{"a positive value", psym("v").Add(one)},
		{"a negative value", psym("w").Add(one).Neg()},
		{"zero", zeroPoly},
	}
}

// deviating lists actual values within (false) and beyond (true) tol.
func deviating(v, tol *Poly) map[string]struct {
	p      *Poly
	beyond bool
} {
	r := map[string]struct {
		p      *Poly
		beyond bool
	}{}
	add := func(n string, p *Poly, beyond bool) {
		r[n] = struct {
			p      *Poly
			beyond bool
		}{p, beyond}
	}
	add("the exact value", v, false)
	if v.isZeroSyn() {
		if tol.uses(epsAtom) {
			tol = ratPoly(1, 1000000)
		}
		add("slightly more", tol.Scale(ratInt(3)), true)
		add("slightly less", tol.Scale(ratInt(-3)), true)
		add("much more", psym("more").Add(intPoly(1)), true)
		add("much less", psym("less").Add(intPoly(1)).Neg(), true)
		return r
	}
	one := intPoly(1)
	half := tol.Mul(ratPoly(1, 2))
	if tol.uses(epsAtom) { // the default tolerance is infinitesimal in the analysis
		tol = ratPoly(1, 1000000)
	} else {
		add("a bit more", v.Mul(one.Add(half)), false)
		add("a bit less", v.Mul(one.Sub(half)), false)
	}
	add("3 tolerances more", v.Mul(one.Add(tol.Scale(ratInt(3)))), true)
	add("3 tolerances less", v.Mul(one.Sub(tol.Scale(ratInt(3)))), true)
	add("zero", zeroPoly, true)
	add("the opposite", v.Neg(), true)
	add("twice the value", v.Add(v), true)
	return r
}

func runC24(k *Check) {
	k.expectFailure()
	k.expectNodal()
	k.expectTwice()
	k.expectInterpolation()
	k.expectTolerances()
	k.expectMalformed()
	k.expectMany()
}

// expectTolerances: every stated tolerance is used as it is, be it zero, tiny or large.
func (k *Check) expectTolerances() {
	one, eps := intPoly(1), atomPoly(epsAtom)
	type tol struct {
		name   string
		stated *Poly // nil for the default
		large  bool
	}
	tols := []tol{{"default", nil, false}, {"zero", zeroPoly, false}, {"1e-12", eps.Scale(big.NewRat(1, 100)), false}, {"1e-9", eps.Scale(ratInt(10)), false},
		{"1e-7", eps.Scale(ratInt(1000)), false}, {"1e-5", ratPoly(1, 100000), false}, {"0.05", ratPoly(1, 20), true}, {"0.25", ratPoly(1, 4), true}}
	for _, t := range tols {
		for _, val := range []struct {
			name  string
			p     *Poly
			small bool // not much more than the absolute tolerance
		}{{"1000", intPoly(1000), false}, {"-1000", intPoly(-1000), false}, {"7", intPoly(7), false}, {"0", zeroPoly, false},
			{"1/10000", ratPoly(1, 10000), true}, {"-1/1000", ratPoly(-1, 1000), true}} {
			v, want := val.name, val.p
			if val.small && !t.large {
				continue
			}
			k.scenario(fmt.Sprintf("tolerance %v, value %v", t.name, v), func(it *Interp) {
				eff := eps.Scale(ratInt(100))
				if t.stated != nil {
					eff = t.stated
				}
				type dev struct {
					what   string
					p      *Poly
					beyond bool
				}
				var devs []dev
				if want.isZeroSyn() {
					d := eff.Scale(ratInt(2)).Add(eps.Scale(ratInt(300)))
					devs = []dev{{"the exact value", want, false}, {"a bit more", d, true}, {"a bit less", d.Neg(), true}}
				} else {
					// beyond the relative and any absolute tolerance
					d := eff.Scale(ratInt(2))
					if t.name == "zero" || t.name == "1e-12" || t.name == "1e-9" {
						d = eff.Scale(ratInt(2)).Add(eps)
						if v == "7" {
							d = d.Add(eps.Scale(ratInt(20)))
						}
					}
					h := eff.Scale(big.NewRat(1, 2))
					devs = []dev{{"the exact value", want, false},
						{"a bit less", want.Mul(one.Sub(d)), true}, {"slightly less", want.Mul(one.Sub(h)), false}}
					if !d.uses(epsAtom) {
						devs = append(devs, dev{"a bit more", want.Mul(one.Add(d)), true}, dev{"slightly more", want.Mul(one.Add(h)), false})
					}
				}
				for _, kind := range []string{"primary", "reaction", "polynomial"} {
					if val.small && kind == "polynomial" { // where tolerances are absolute, too
						continue
					}
					var doc []any
					if t.stated != nil {
						doc = []any{"tolerance", jobj(kind, jnum(t.stated))}
					}
					for _, d := range devs {
						r := &stubResult{primary: map[string]*Poly{}, reaction: map[string]*Poly{}, inter: map[string]V{}}
						var stated *JNode
						switch kind {
						case "primary", "reaction":
							stated = expDoc(append(doc, kind, jobj("A", jarr(jobj(map[string]string{"primary": "Uz", "reaction": "Fz"}[kind], jnum(want)))))...)
							r.primary["A/Uz"], r.reaction["A/Uz"] = d.p, d.p
						default:
							stated = expDoc(append(doc, "interpolation", jobj("E", jarr(jobj("kind", jstr("My"), "degree", jint(0), "boundary", jarr(jnum(want))),
								jobj("kind", jstr("My"), "degree", jint(0), "eval", jarr(jarr(jint(1), jnum(want)))))))...)
							r.inter["E/FctMy"] = it.mkSeq(it.mkPiece(zeroPoly, intPoly(2), d.p))
						}
						list, err := k.expectations(stated)
						k.errNil("parsing", expectFn, "a tolerance", err)
						k.reports("tolerance", kind, fmt.Sprintf("%v instead of %v, tolerance %v,", d.what, v, t.name), k.assertion(it.ctx().restrict(list), r.value(it), Iface{}), d.beyond)
					}
				}
			})
		}
	}
}

// expectMany: nothing is overlooked in long lists.
func (k *Check) expectMany() {
	const rule = "completeness"
	n := 70
	if k.thor {
		n = 300
	}
	places := []int{0, 1, 9, n/2 - 1, n - 2, n - 1}
	off := ratPoly(1, 10)
	for _, lists := range []bool{false, true} {
		k.scenario(fmt.Sprintf("%d nodal values, lists %v", n, lists), func(it *Interp) {
			prim, reac := jobj(), jobj()
			want := map[string]*Poly{}
			var keys []string
			for i := 0; i < n; i++ {
				node := fmt.Sprint("N", i)
				d, r := "Uz", "Fz"
				if lists { // of a few nodes
					node = fmt.Sprint("N", i/6)
					d = allDofs[i%6]
					for name, x := range reactionNames {
						if x == d {
							r = name
						}
					}
				}
				v := intPoly(int64(i%7*3 + 2))
				if i%3 == 0 {
					v = v.Neg()
				}
				if !lists || i%6 == 0 {
					prim.set(node, jarr())
					reac.set(node, jarr())
				}
				prim.at(node).arr = append(prim.at(node).arr, jobj(d, jnum(v)))
				reac.at(node).arr = append(reac.at(node).arr, jobj(r, jnum(v)))
				keys = append(keys, node+"/"+d)
				want[node+"/"+d] = v
			}
			list, err := k.expectations(expDoc("primary", prim, "reaction", reac))
			k.errNil("parsing", expectFn, "many nodal values", err)
			l := it.ctx().restrict(list)
			with := func(kind string, place int) *stubResult {
				r := &stubResult{primary: map[string]*Poly{}, reaction: map[string]*Poly{}}
				for x, v := range want {
					r.primary[x], r.reaction[x] = v, v
				}
				if place >= 0 {
					m := r.primary
					if kind == "reaction" {
						m = r.reaction
					}
					m[keys[place]] = m[keys[place]].Add(off)
				}
				return r
			}
			k.reports(rule, "nodal values", "the exact result", k.assertion(l, with("", -1).value(it), Iface{}), false)
			for _, kind := range []string{"primary", "reaction"} {
				for _, place := range places {
					k.reports(rule, kind, fmt.Sprintf("wrong %v value %d of %d", kind, place+1, n), k.assertion(l, with(kind, place).value(it), Iface{}), true)
				}
			}
		})
	}
	k.scenario(fmt.Sprintf("%d samples of one interpolation", n), func(it *Interp) {
		f := upoly([]*Poly{intPoly(3), ratPoly(1, 2), zeroPoly, ratPoly(1, 1000)})
		at := func(i int) *Poly { return ratPoly(int64(i), 10) }
		end := at(n)
		seq := it.mkSeq(it.mkPiece(zeroPoly, end, f...))
		for _, place := range append([]int{-1}, places...) {
			l := jarr()
			for i := 0; i < n; i++ {
				v := f.at(at(i))
				if i == place {
					v = v.Add(off)
				}
				l.arr = append(l.arr, jarr(jnum(at(i)), jnum(v)))
			}
			list, err := k.expectations(expDoc("interpolation", jobj("E", jarr(jobj("kind", jstr("My"), "degree", jint(3), "eval", l)))))
			k.errNil("parsing", expectFn, "many samples", err)
			r := &stubResult{inter: map[string]V{"E/FctMy": seq}}
			what := fmt.Sprintf("a wrong sample at place %d of %d", place+1, n)
			if place < 0 {
				what = "the exact polynomial"
			}
			k.reports(rule, "interpolations", what, k.assertion(it.ctx().restrict(list), r.value(it), Iface{}), place >= 0)
		}
	})
	for _, one := range []bool{true, false} {
		k.scenario(fmt.Sprintf("%d interpolations, one element %v", n, one), func(it *Interp) {
			// of one element with as many sections, or as many elements
			exp := jobj()
			for i := 0; i < n; i++ {
				e := "E"
				if !one {
					e = fmt.Sprint("E", i)
				}
				v := jnum(intPoly(int64(i%5 + 1)))
				d := jobj("kind", jstr("Vz"), "degree", jint(0))
				if one {
					d.set("range", jarr(jint(i), jint(i+1)))
				}
				switch i % 3 {
				case 0:
					d.set("boundary", jarr(v))
				case 1:
					d.set("boundary", jarr(v, v))
				default:
					d.set("eval", jarr(jarr(jnum(intPoly(int64(i)).Mul(map[bool]*Poly{true: intPoly(1), false: zeroPoly}[one])), v)))
				}
				if i == 0 || !one {
					exp.set(e, jarr())
				}
				exp.at(e).arr = append(exp.at(e).arr, d)
			}
			list, err := k.expectations(expDoc("interpolation", exp))
			k.errNil("parsing", expectFn, "many interpolations", err)
			l := it.ctx().restrict(list)
			for _, place := range append([]int{-1}, places...) {
				inter := map[string]V{}
				var ps []V
				for i := 0; i < n; i++ {
					v := intPoly(int64(i%5 + 1))
					if i == place {
						v = v.Add(off)
					}
					if one {
						ps = append(ps, it.mkPiece(intPoly(int64(i)), intPoly(int64(i+1)), v))
					} else {
						inter[fmt.Sprintf("E%d/FctVz", i)] = it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), v))
					}
				}
				if one {
					inter["E/FctVz"] = it.mkSeq(ps...)
				}
				what := fmt.Sprintf("a wrong interpolation at place %d of %d", place+1, n)
				if place < 0 {
					what = "the exact result"
				}
				k.reports(rule, "interpolations", what, k.assertion(l, (&stubResult{inter: inter}).value(it), Iface{}), place >= 0)
			}
		})
	}
}

func (k *Check) expectFailure() {
	pat := func(s string) *JNode { return jstr(s) }
	someErr := func(it *Interp, text V) V { return errValue(it, "failure", &errData{unwrap: Iface{}, text: text}) }
	k.scenario("failure expectations", func(it *Interp) {
		list, err := k.expectations(expDoc())
		k.errNil("parsing", expectFn, "an empty expectation", err)
		k.reports("failure", "no failure stated", "an error although none is expected", k.assertion(list, nil, someErr(it, Str{"x"})), true)
		empty := (&stubResult{}).value(it)
		k.reports("failure", "no failure stated", "success", k.assertion(list, empty, Iface{}), false)
		for _, x := range []struct {
			pattern, text string
			matches       bool
		}{
			{"singular", "matrix is singular", true},
			{"singular", "Matrix is Singular", true},
			{"Singular", "Matrix is Singular", true},
			{"singular", "no such node", false},
			{"^sing", "not singular", false},
			{"(?i)SING", "singular", true},
			{"a.*b", "xaab", true},
			{"", "anything", true},
		} {
			list, err := k.expectations(expDoc("failure", pat(x.pattern)))
			k.errNil("parsing", expectFn, "a failure pattern", err)
			k.reports("failure", "failure pattern", fmt.Sprintf("error %q, expected is %q,", x.text, x.pattern), k.assertion(list, nil, someErr(it, Str{x.text})), !x.matches)
			k.reports("failure", "failure pattern", "success although a failure is expected", k.assertion(list, empty, Iface{}), true)
		}
		// unknown texts: no failure is reported only if the text or its lower case variant matches
		p, s := &SymStr{name: "pattern"}, &SymStr{name: "error"}
		list, err = k.expectations(expDoc("failure", jsym(p)))
		valid := atomBool(opaqueAtom("valid pattern " + strKey(p)))
		k.eq("parsing", expectFn, "error of a document with an unknown pattern", it.not(isNil(it.ctx(), err)), it.not(valid))
		k.onSuccess(err, func() {
			l := it.ctx().restrict(list)
			k.reports("failure", "failure pattern", "success although a failure is expected", k.assertion(l, empty, Iface{}), true)
			m := atomBool(opaqueAtom("match " + strKey(p) + " " + strKey(s)))
			failed := k.assertion(l, nil, someErr(it, s))
			k.assuming(m, func() { k.reports("failure", "failure pattern", "a matching error", failed, false) })
		})
		// A stated failure next to stated values
		list, err = k.expectations(expDoc("failure", pat("x"), "primary", jobj("A", jarr(jobj("Ux", jint(1))))))
		k.errNil("parsing", expectFn, "values and a failure", err)
		k.reports("failure", "failure pattern", "success although a failure is expected", k.assertion(list, empty, Iface{}), true)
		k.reports("failure", "failure pattern", "the wrong failure", k.assertion(list, nil, someErr(it, Str{"y"})), true)
	})
}

// names usable in nodal expectations
var reactionNames = map[string]string{"Fx": "Ux", "Fz": "Uz", "Fy": "Uy", "My": "Phiy", "Mz": "Phiz", "Mx": "Phix"}

func (k *Check) expectNodal() {
	type tols struct {
		name      string
		p, r      *Poly // effective
		doc       func() []any
		symbolism bool
	}
	sets := []tols{
		{"default tolerances", floatPoly(1e-8), floatPoly(1e-8), func() []any { return nil }, false},
		{"both tolerances", ratPoly(1, 100), ratPoly(1, 10000), func() []any {
			return []any{"tolerance", jobj("primary", jnum(ratPoly(1, 100)), "reaction", jnum(ratPoly(1, 10000)))}
		}, false},
		{"small primary tolerance", ratPoly(1, 10000), ratPoly(1, 100), func() []any {
			return []any{"tolerance", jobj("primary", jnum(ratPoly(1, 10000)), "reaction", jnum(ratPoly(1, 100)), "polynomial", jnum(ratPoly(1, 2)))}
		}, false},
		{"primary tolerance only", ratPoly(1, 100), floatPoly(1e-8), func() []any { return []any{"tolerance", jobj("primary", jnum(ratPoly(1, 100)))} }, false},
		{"reaction tolerance only", floatPoly(1e-8), ratPoly(1, 100), func() []any { return []any{"tolerance", jobj("reaction", jnum(ratPoly(1, 100)))} }, false},
	}
	for _, ts := range sets {
		for _, sv := range samples() {
			k.scenario(fmt.Sprintf("nodal values, %v, %v", ts.name, sv.what), func(it *Interp) {
				for i, d := range allDofs {
					other := allDofs[(i+1)%len(allDofs)]
					rname := ""
					for n, x := range reactionNames {
						if x == d {
							rname = n
						}
					}
					o := psym("o").Add(intPoly(1))
					list, err := k.expectations(expDoc(append(ts.doc(),
						"primary", jobj("A", jarr(jobj(d, jnum(sv.v))), "B", jarr(jobj(other, jnum(o)), jobj(d, jnum(o)))),
						"reaction", jobj("A", jarr(jobj(rname, jnum(sv.v)))))...))
					k.errNil("parsing", expectFn, "nodal values", err)
					l := it.ctx().restrict(list)
					base := func() *stubResult {
						return &stubResult{
							primary:  map[string]*Poly{"A/" + d: sv.v, "B/" + other: o, "B/" + d: o},
							reaction: map[string]*Poly{"A/" + d: sv.v},
						}
					}
					for _, n := range keysOf(deviating(sv.v, ts.p)) {
						x := deviating(sv.v, ts.p)[n]
						r := base()
						r.primary["A/"+d] = x.p
						k.reports("nodal", "primary "+d, n+" instead of "+sv.what+", "+ts.name+",", k.assertion(l, r.value(it), Iface{}), x.beyond)
					}
					for _, n := range keysOf(deviating(sv.v, ts.r)) {
						x := deviating(sv.v, ts.r)[n]
						r := base()
						r.reaction["A/"+d] = x.p
						k.reports("nodal", "reaction "+rname, n+" instead of "+sv.what+", "+ts.name+",", k.assertion(l, r.value(it), Iface{}), x.beyond)
					}
				}
			})
		}
	}
	k.scenario("all nodal values", func(it *Interp) {
		// every single value, in lists and joint objects, of several nodes
		prim, reac := jobj(), jobj()
		full := &stubResult{primary: map[string]*Poly{}, reaction: map[string]*Poly{}}
		c := 1
		for _, n := range []string{"A", "B", "C"} {
			pl, rl := jarr(), jarr()
			for i, d := range allDofs {
				v := intPoly(int64(c))
				c++
				rname := ""
				for r, x := range reactionNames {
					if x == d {
						rname = r
					}
				}
				if i%2 == 0 {
					pl.arr = append(pl.arr, jobj(d, jnum(v)))
					rl.arr = append(rl.arr, jobj(rname, jnum(v.Neg())))
				} else {
					last := len(pl.arr) - 1
					pl.arr[last].set(d, jnum(v))
					rl.arr[last].set(rname, jnum(v.Neg()))
				}
				full.primary[n+"/"+d] = v
				full.reaction[n+"/"+d] = v.Neg()
			}
			prim.set(n, pl)
			reac.set(n, rl)
		}
		list, err := k.expectations(expDoc("primary", prim, "reaction", reac))
		k.errNil("parsing", expectFn, "nodal values", err)
		l := it.ctx().restrict(list)
		k.reports("completeness", "nodal values", "the exact result", k.assertion(l, full.value(it), Iface{}), false)
		for _, key := range keysOf(full.primary) {
			for _, mode := range []string{"wrong", "missing"} {
				for _, kind := range []string{"primary", "reaction"} {
					r := &stubResult{primary: map[string]*Poly{}, reaction: map[string]*Poly{}}
					for x, v := range full.primary {
						r.primary[x], r.reaction[x] = v, v.Neg()
					}
					m := r.primary
					if kind == "reaction" {
						m = r.reaction
					}
					if mode == "wrong" {
						d := psym("d").Add(ratPoly(1, 100))
						if kind == "reaction" {
							d = d.Neg()
						}
						m[key] = m[key].Add(d)
					} else {
						delete(m, key)
					}
					k.reports("completeness", kind, fmt.Sprintf("%v %v value of %v", mode, kind, key), k.assertion(l, r.value(it), Iface{}), true)
				}
			}
		}
	})
}

// expectTwice: the same value stated more than once.
func (k *Check) expectTwice() {
	k.scenario("nodal values stated twice", func(it *Interp) {
		v, d := psym("v").Add(intPoly(1)), psym("d").Add(ratPoly(1, 100))
		for _, kind := range []string{"primary", "reaction"} {
			for _, name := range []string{"Ux", "Phiy"} {
				for _, swap := range []bool{false, true} {
					first, second := v, v.Add(d)
					if swap {
						first, second = second, first
					}
					list, err := k.expectations(expDoc(kind, jobj("A", jarr(jobj(name, jnum(first)), jobj(name, jnum(second))))))
					k.onSuccess(err, func() {
						l := it.ctx().restrict(list)
						r := &stubResult{primary: map[string]*Poly{}, reaction: map[string]*Poly{}}
						r.primary["A/"+name], r.reaction["A/"+name] = v, v
						k.reports("completeness", kind, "a deviation from one of two stated values", k.assertion(l, r.value(it), Iface{}), true)
					})
				}
			}
		}
	})
}

// quantityNames are the documented names of quantities.
func quantityNames() []string {
	var r []string
	for _, f := range allFcts[1:] {
		r = append(r, strings.TrimPrefix(f, "Fct"))
	}
	return r
}

func (k *Check) expectInterpolation() {
	type tol struct {
		name string
		eff  *Poly
		doc  []any
	}
	tols := func() []tol {
		return []tol{
			{"default tolerance", floatPoly(1e-8), nil},
			{"stated tolerance", ratPoly(1, 1000), []any{"tolerance", jobj("polynomial", jnum(ratPoly(1, 1000)))}},
			{"stated tolerances", ratPoly(1, 1000), []any{"tolerance", jobj("polynomial", jnum(ratPoly(1, 1000)), "primary", jnum(ratPoly(1, 10)), "reaction", jnum(ratPoly(1, 1000000)))}},
		}
	}
	one := intPoly(1)
	for deg := 0; deg <= 3; deg++ {
		for ti := range tols() {
			for _, ranged := range []bool{false, true} {
				for sign := 1; sign >= -1; sign -= 2 {
					t := tols()[ti]
					k.scenario(fmt.Sprintf("interpolation of degree %d, %v, range %v, sign %d", deg, t.name, ranged, sign), func(it *Interp) {
						t := tols()[ti]
						q := quantityNames()[(deg*5+ti*2+sign+1)%12]
						// pieces [0, a], [a, b], [b, l]
						a := psym("a").Add(one)
						b := a.Add(psym("b")).Add(one)
						end := b.Add(psym("l")).Add(one)
						var co []*Poly
						for i := 0; i <= deg; i++ {
							co = append(co, psym(fmt.Sprint("c", i)).Add(one).Scale(ratInt(sign)))
						}
						p := upoly(co)
						x0, xe := zeroPoly, end
						if ranged {
							x0, xe = a, b
						}
						mid := x0.Add(xe).Mul(ratPoly(1, 2))
						desc := func(what map[string]*Poly) *JNode {
							d := jobj("kind", jstr(q), "degree", jint(deg))
							if ranged {
								d.set("range", jarr(jnum(x0), jnum(xe)))
							}
							val := func(key string, x *Poly) *Poly {
								if v, ok := what[key]; ok {
									return v
								}
								return p.at(x)
							}
							if _, ok := what["no boundary"]; !ok {
								if _, ok := what["one boundary"]; ok {
									d.set("boundary", jarr(jnum(val("left", x0))))
								} else {
									d.set("boundary", jarr(jnum(val("left", x0)), jnum(val("right", xe))))
								}
							}
							if _, ok := what["no eval"]; !ok {
								d.set("eval", jarr(jarr(jnum(x0), jnum(val("first", x0))), jarr(jnum(mid), jnum(val("middle", mid))), jarr(jnum(xe), jnum(val("last", xe)))))
							}
							return d
						}
						seq := func(pieces ...V) V { return it.mkSeq(pieces...) }
						whole := func(co []*Poly) V {
							if !ranged {
								return seq(it.mkPiece(x0, xe, co...))
							}
							return seq(it.mkPiece(zeroPoly, a, sym("u")), it.mkPiece(a, b, co...), it.mkPiece(b, end, sym("u"), sym("w")))
						}
						check := func(what string, d *JNode, s V, want bool) {
							list, err := k.expectations(expDoc(append(append([]any(nil), t.doc...), "interpolation", jobj("E", jarr(d)))...))
							k.errNil("parsing", expectFn, "interpolation", err)
							r := &stubResult{inter: map[string]V{}}
							if s != nil {
								r.inter["E/Fct"+q] = s
							}
							k.reports("interpolation", q, what, k.assertion(it.ctx().restrict(list), r.value(it), Iface{}), want)
						}
						exact := map[string]*Poly{}
						check("the exact polynomial", desc(exact), whole(co), false)
						check("the exact polynomial, one boundary value", desc(map[string]*Poly{"one boundary": one, "no eval": one}), whole(co), false)
						check("the exact polynomial, nothing but the degree", desc(map[string]*Poly{"no boundary": one, "no eval": one}), whole(co), false)
						for _, key := range []string{"left", "right", "first", "middle", "last"} {
							x := map[string]*Poly{"left": x0, "right": xe, "first": x0, "middle": mid, "last": xe}[key]
							v := p.at(x)
							for _, n := range keysOf(deviating(v, t.eff)) {
								dv := deviating(v, t.eff)[n]
								w := map[string]*Poly{key: dv.p}
								check(key+" value: "+n+" is stated,", desc(w), whole(co), dv.beyond)
								if key == "left" && dv.beyond {
									check("only value: "+n+" is stated,", desc(map[string]*Poly{key: dv.p, "one boundary": one, "no eval": one}), whole(co), true)
								}
								if (key == "left" || key == "right") && dv.beyond {
									check(key+" value without samples: "+n+" is stated,", desc(map[string]*Poly{key: dv.p, "no eval": one}), whole(co), true)
								} else if dv.beyond {
									check(key+" sample without boundary values: "+n+" is stated,", desc(map[string]*Poly{key: dv.p, "no boundary": one}), whole(co), true)
								}
							}
						}
						bare := map[string]*Poly{"no boundary": one, "no eval": one}
						for _, d := range []map[string]*Poly{exact, bare} {
							check("a higher degree", desc(d), whole(append(append([]*Poly{}, co...), psym("h").Scale(ratInt(sign)))), true)
							if deg > 0 {
								check("a lower degree", desc(d), whole(co[:deg]), true)
							}
							check("a missing interpolation", desc(d), nil, true)
							check("no pieces", desc(d), seq(), true)
							if ranged {
								check("other intervals", desc(d), seq(it.mkPiece(zeroPoly, a, co...), it.mkPiece(a, end, co...)), true)
								check("other intervals", desc(d), seq(it.mkPiece(zeroPoly, b, co...), it.mkPiece(b, end, co...)), true)
								check("a single piece instead of three", desc(d), seq(it.mkPiece(zeroPoly, end, co...)), true)
							} else {
								check("two pieces instead of one", desc(d), seq(it.mkPiece(zeroPoly, a, co...), it.mkPiece(a, end, co...)), true)
							}
						}
						// samples outside of the piece
						d := desc(bare)
						d.set("eval", jarr(jarr(jnum(xe.Add(one)), jnum(p.at(xe.Add(one))))))
						check("a sample outside of the domain", d, whole(co), true)
						// next to valid ones
						at := func(x *Poly) *JNode { return jarr(jnum(x), jnum(p.at(x))) }
						for i := 0; i < 4; i++ {
							for side, x := range []*Poly{xe.Add(one), x0.Sub(one)} {
								var l []*JNode
								for j := 0; j < 4; j++ {
									if j == i {
										l = append(l, at(x))
									} else {
										l = append(l, at([]*Poly{x0, mid, xe, mid}[j]))
									}
								}
								d := desc(map[string]*Poly{"no eval": one})
								if side == 1 {
									d = desc(bare)
								}
								d.set("eval", jarr(l...))
								check(fmt.Sprintf("sample %d outside of the domain", i), d, whole(co), true)
							}
						}
					})
				}
			}
		}
	}
	k.scenario("all interpolations", func(it *Interp) {
		// several elements with all quantities, some of them twice
		exp := jobj()
		full := map[string]V{}
		bad := map[string][]V{} // each is at odds with exactly one of the expectations
		c := 1
		for _, e := range []string{"E1", "E2", "E3"} {
			l := jarr()
			for i, q := range quantityNames() {
				v := intPoly(int64(c))
				c++
				var seq V
				var wrong []V
				two, three := intPoly(2), intPoly(3)
				switch i % 3 {
				case 0:
					pieces := func(a, b, c *Poly) V {
						return it.mkSeq(it.mkPiece(zeroPoly, one, a), it.mkPiece(one, two, b), it.mkPiece(two, three, c, one))
					}
					seq = pieces(v, v.Neg(), v)
					wrong = []V{pieces(v.Add(one), v.Neg(), v), pieces(v, v, v), pieces(v, v.Neg(), v.Add(two))}
					l.arr = append(l.arr,
						jobj("kind", jstr(q), "degree", jint(0), "range", jarr(jint(0), jint(1)), "boundary", jarr(jnum(v))),
						jobj("kind", jstr(q), "degree", jint(0), "range", jarr(jint(1), jint(2)), "eval", jarr(jarr(jint(1), jnum(v.Neg())))),
						jobj("kind", jstr(q), "degree", jint(1), "range", jarr(jint(2), jint(3)), "eval", jarr(jarr(jint(2), jnum(v.Add(two))))))
				case 1:
					// one piece, described by several entries
					pieces := func(co ...*Poly) V { return it.mkSeq(it.mkPiece(zeroPoly, three, co...)) }
					n := func(i int64) *Poly { return intPoly(i) }
					// v + x + x³, plus cubics that vanish at all but one of the places
					seq = pieces(v, one, zeroPoly, one)
					wrong = []V{pieces(v, n(7), n(-5), two), pieces(v, n(4), n(-4), two), pieces(v.Add(two), n(-2), one, one)}
					l.arr = append(l.arr,
						jobj("kind", jstr(q), "degree", jint(3), "eval", jarr(jarr(jint(1), jnum(v.Add(two))))),
						jobj("kind", jstr(q), "degree", jint(3), "eval", jarr(jarr(jint(2), jnum(v.Add(n(10)))))),
						jobj("kind", jstr(q), "degree", jint(3), "range", jarr(jint(0), jint(3)), "boundary", jarr(jnum(v), jnum(v.Add(n(30))))))
				default:
					seq = it.mkSeq(it.mkPiece(zeroPoly, one, v, one))
					wrong = []V{it.mkSeq(it.mkPiece(zeroPoly, one, v.Add(one), one)), it.mkSeq(it.mkPiece(zeroPoly, one, v, two))}
					l.arr = append(l.arr, jobj("kind", jstr(q), "degree", jint(1), "boundary", jarr(jnum(v), jnum(v.Add(one)))))
				}
				full[e+"/Fct"+q] = seq
				bad[e+"/Fct"+q] = wrong
			}
			exp.set(e, l)
		}
		list, err := k.expectations(expDoc("interpolation", exp))
		k.errNil("parsing", expectFn, "interpolations", err)
		l := it.ctx().restrict(list)
		k.reports("completeness", "interpolations", "the exact result", k.assertion(l, (&stubResult{inter: full}).value(it), Iface{}), false)
		for _, key := range keysOf(full) {
			for n := 0; n <= len(bad[key]); n++ {
				m := map[string]V{}
				for x, v := range full {
					m[x] = v
				}
				mode := fmt.Sprintf("wrong (%d)", n)
				if n < len(bad[key]) {
					m[key] = bad[key][n]
				} else {
					mode = "missing"
					delete(m, key)
				}
				k.reports("completeness", "interpolations", fmt.Sprintf("%v interpolation %v", mode, key), k.assertion(l, (&stubResult{inter: m}).value(it), Iface{}), true)
			}
		}
	})
}

func fullExpectations() *JNode {
	ip := func(q string, kv ...any) *JNode {
		return jobj(append([]any{"kind", jstr(q), "degree", jint(1)}, kv...)...)
	}
	return expDoc(
		"primary", jobj("A", jarr(jobj("Ux", jint(1), "Uz", jint(2)), jobj("Phiy", jint(3))), "B", jarr(jobj("Ux", jint(4)))),
		"reaction", jobj("A", jarr(jobj("Fx", jint(1), "Fz", jint(2)), jobj("My", jint(3))), "B", jarr(jobj("Fx", jint(4)))),
		"tolerance", jobj("primary", jnum(ratPoly(1, 1000)), "reaction", jnum(ratPoly(1, 1000)), "polynomial", jnum(ratPoly(1, 1000))),
		"interpolation", jobj(
			"E", jarr(
				ip("Nx", "range", jarr(jint(0), jint(1)), "boundary", jarr(jint(1), jint(2)), "eval", jarr(jarr(jint(0), jint(1)), jarr(jint(1), jint(2)))),
				ip("Uz", "boundary", jarr(jint(1)))),
			"F", jarr(ip("My", "eval", jarr(jarr(jint(0), jint(1)))))),
		"failure", jstr("pattern"))
}

func (k *Check) expectMalformed() {
	type mutation struct {
		name string
		path []any
		f    func(n *JNode)
	}
	become := func(m *JNode) func(n *JNode) { return func(n *JNode) { *n = *m.clone() } }
	rename := func(from, to string) func(n *JNode) {
		return func(n *JNode) {
			v := n.at(from)
			n.del(from)
			n.set(to, v)
		}
	}
	ms := []mutation{
		{"nothing expected", nil, func(n *JNode) { n.del("expected") }},
		{"unknown part of the expectation", []any{"expected"}, rename("primary", "primry")},
		{"unknown part of the expectation", []any{"expected"}, rename("reaction", "reactions")},
		{"unknown part of the expectation", []any{"expected"}, rename("interpolation", "interpolations")},
		{"unknown part of the expectation", []any{"expected"}, rename("failure", "fail")},
		{"unknown part of the expectation", []any{"expected"}, rename("tolerance", "tol")},
		{"unknown tolerance", []any{"expected", "tolerance"}, rename("primary", "primry")},
		{"unknown tolerance", []any{"expected", "tolerance"}, rename("reaction", "reactions")},
		{"unknown tolerance", []any{"expected", "tolerance"}, rename("polynomial", "poly")},
		{"invalid pattern", []any{"expected", "failure"}, become(jstr("a(b"))},
		{"invalid pattern", []any{"expected", "failure"}, become(jstr("[z-a]"))},
	}
	for _, part := range []string{"primary", "reaction"} {
		good := map[string]string{"primary": "Ux", "reaction": "Fx"}[part]
		names := []string{"", "ux", "U", "Vx", "Nx", "Phi", "Fctx", "UX", "Uxx", "FctUx", "Unknown"}
		for _, n := range names {
			ms = append(ms, mutation{"unknown name " + n, []any{"expected", part, "A", 0}, rename(good, n)},
				mutation{"unknown name " + n, []any{"expected", part, "B", 0}, rename(good, n)})
		}
		last := map[string]string{"primary": "Phiy", "reaction": "My"}[part]
		ms = append(ms, mutation{"unknown name", []any{"expected", part, "A", 1}, rename(last, "Psiy")})
		for _, p := range [][]any{{"expected", part}, {"expected", part, "A"}, {"expected", part, "B"}, {"expected", part, "A", 0}, {"expected", part, "A", 0, good}} {
			ms = append(ms, mutation{"text instead of values", p, become(jstr("x"))})
		}
	}
	for _, p := range [][]any{{"expected", "interpolation", "E", 0}, {"expected", "interpolation", "E", 1}, {"expected", "interpolation", "F", 0}} {
		at := func(key string) []any { return append(append([]any(nil), p...), key) }
		for _, q := range []string{"", "nx", "N", "Fx", "FctNx", "Unknown", "FctUnknown", "UX"} {
			ms = append(ms, mutation{"unknown quantity " + q, at("kind"), become(jstr(q))})
		}
		ms = append(ms, mutation{"missing quantity", p, func(n *JNode) { n.del("kind") }},
			mutation{"unknown part of an interpolation", p, func(n *JNode) { n.set("bounds", jarr()) }},
			mutation{"degree is not a number", at("degree"), become(jstr("1"))},
			mutation{"degree is not integral", at("degree"), become(jnum(ratPoly(3, 2)))})
		for n := 1; n <= 4; n++ {
			var vals []*JNode
			for i := 0; i < n; i++ {
				vals = append(vals, jint(i))
			}
			if n != 2 {
				ms = append(ms, mutation{fmt.Sprintf("range with %d values", n), p, func(d *JNode) { d.set("range", jarr(vals...)) }})
			}
			if n > 2 {
				ms = append(ms, mutation{fmt.Sprintf("%d boundary values", n), p, func(d *JNode) { d.set("boundary", jarr(vals...)) }})
			}
			if n != 2 {
				ms = append(ms,
					mutation{fmt.Sprintf("sample with %d values", n), p, func(d *JNode) { d.set("eval", jarr(jarr(vals...))) }},
					mutation{fmt.Sprintf("last sample with %d values", n), p, func(d *JNode) { d.set("eval", jarr(jarr(jint(0), jint(1)), jarr(vals...))) }},
					mutation{fmt.Sprintf("first sample with %d values", n), p, func(d *JNode) { d.set("eval", jarr(jarr(vals...), jarr(jint(0), jint(1)))) }})
			}
		}
		ms = append(ms, mutation{"empty sample", p, func(d *JNode) { d.set("eval", jarr(jarr())) }},
			mutation{"text as sample", p, func(d *JNode) { d.set("eval", jstr("x")) }},
			mutation{"text as range", p, func(d *JNode) { d.set("range", jstr("x")) }},
			mutation{"text as boundary", p, func(d *JNode) { d.set("boundary", jstr("x")) }})
	}
	k.scenario("malformed expectations", func(it *Interp) {
		_, err := k.expectations(fullExpectations())
		k.errNil("parsing", expectFn, "well-formed expectations", err)
		for _, m := range ms {
			doc := fullExpectations()
			m.f(doc.at(m.path...))
			_, err := k.expectations(doc)
			k.errSet("malformed", expectFn+": "+m.name, fmt.Sprintf("%v in %v", m.name, m.path), err)
		}
		for _, n := range []*JNode{{kind: "bad"}, jarr(), jstr("x")} {
			_, err := k.expectations(n)
			k.errSet("malformed", expectFn+": no object", "a document that is no object", err)
		}
		// any unknown name
		for _, part := range []string{"primary", "reaction"} {
			s := &SymStr{name: "name"}
			_, err := k.expectations(expDoc(part, jobj("A", jarr(jobj(s, jint(1))))))
			known := V(Bool(false))
			for _, d := range allDofs {
				known = it.any(known, it.strEq(it.ctx(), s, Str{d}))
			}
			for d := range reactionNames {
				known = it.any(known, it.strEq(it.ctx(), s, Str{d}))
			}
			k.assuming(it.not(known), func() { k.errSet("malformed", expectFn+": unknown name", "any other name", it.ctx().restrict(err)) })
		}
		s := &SymStr{name: "kind"}
		_, err = k.expectations(expDoc("interpolation", jobj("E", jarr(jobj("kind", jsym(s), "degree", jint(1))))))
		known := V(Bool(false))
		for _, q := range quantityNames() {
			known = it.any(known, it.strEq(it.ctx(), s, Str{q}))
		}
		k.eq("malformed", expectFn+": unknown quantity", "any quantity: error", it.not(isNil(it.ctx(), it.ctx().restrict(err))), it.not(known))
	})
}

// names ---------------------------------------------------------------------------

// enumerators lists the constants of a type by value, as the type checker sees them.
func (p *Program) enumerators(typ string) map[int][]string {
	t := p.typ(typ)
	r := map[int][]string{}
	scope := p.def.Pkg.Scope()
	for _, n := range scope.Names() {
		if c, ok := scope.Lookup(n).(*types.Const); ok && c.Exported() && types.Identical(c.Type(), t) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				r[int(v)] = append(r[int(v)], n)
			}
		}
	}
	return r
}

func runC23(k *Check) {
	for _, typ := range []string{"Dof", "Fct"} {
		k.scenario("names of "+typ, func(it *Interp) {
			t := it.prog.typ(typ)
			enum := it.prog.enumerators(typ)
			want := map[string][]string{"Dof": allDofs, "Fct": allFcts}[typ]
			values := map[int]bool{}
			for _, n := range want {
				v := it.prog.constInt(n)
				k.expect("distinct-values", typ+"."+n, !values[v], "%v shares its value with another constant", n)
				values[v] = true
			}
			fn := it.prog.methodByName(t, "String")
			if fn == nil {
				unsupported("%v.String not found (unresolved anchor)", typ)
			}
			seen := map[string]int{}
			for v := 0; v < 256; v++ {
				s := it.ctx().restrict(it.callFn(fn, []V{Int(v)}, nil, nil))
				str, ok := s.(Str)
				if !k.expect("name", fmt.Sprintf("%v.String", typ), ok, "%v(%d) is printed as %v", typ, v, show(s)) {
					continue
				}
				if w, dup := seen[str.s]; dup {
					k.fail("distinct", fmt.Sprintf("%v.String", typ), "%v(%d) and %v(%d) are both printed as %q", typ, v, typ, w, str.s)
				} else {
					k.pass("distinct", typ+".String")
				}
				seen[str.s] = v
				if ids := enum[v]; len(ids) > 0 {
					good := false
					for _, id := range ids {
						good = good || str.s == strings.TrimPrefix(id, "Fct")
					}
					k.expect("name", fmt.Sprintf("%v.String of %v", typ, ids[0]), good, "%v is printed as %q", ids[0], str.s)
				} else {
					k.expect("undefined", fmt.Sprintf("%v.String", typ), strings.Contains(str.s, fmt.Sprint(v)), "%v(%d) is printed as %q", typ, v, str.s)
				}
			}
			k.extra["enumerators_"+typ] = len(enum)
		})
	}
	dofName := func(d string) string { return d } // documented identifiers
	for _, d := range allDofs {
		k.scenario("documents with "+d, func(it *Interp) {
			kind := "frame3d"
			doc := jobj(
				"nodes", jobj("A", jarr(jint(0), jint(0), jint(0)), "B", jarr(jint(4), jint(0), jint(0))),
				"material", jobj("default", jobj("kind", jstr("linelast"), "parameter", jobj("E", jint(210), "nu", jint(0), "rho", jint(1)))),
				"crosssection", jobj("default", jobj("kind", jstr("constants"), "parameter", jobj("A", jint(1), "Iyy", jint(2), "Izz", jint(3)))),
				"elements", jobj("AB", jobj("kind", jstr("truss3d"))),
				"dirichlet", jobj("B", jarr(jobj(dofName(d), jnum(sym("v"))))))
			_ = kind
			if p, ok := k.mustParse("usable", doc); ok {
				if l, ok := k.list("usable", p, "Dirichlet"); ok && k.expect("usable", "dirichlet "+d, len(l) == 1, "%d prescribed values", len(l)) {
					nv := it.prog.typ("NodalValue")
					k.eq("usable", "dirichlet "+d, "degree of freedom", it.field(l[0], nv, "Dof"), it.dof(d))
					k.eq("usable", "dirichlet "+d, "node", it.field(l[0], nv, "NodalID"), Str{"B"})
				}
			}
			// expectations
			for _, n := range append([]string{d}, func() (r []string) {
				for f, x := range reactionNames {
					if x == d {
						r = append(r, f)
					}
				}
				return
			}()...) {
				part := "primary"
				if n != d {
					part = "reaction"
				}
				list, err := k.expectations(expDoc(part, jobj("A", jarr(jobj(n, jint(1))))))
				k.errNil("usable", part+" "+n, "an expectation", err)
				r := &stubResult{primary: map[string]*Poly{"A/" + d: intPoly(1)}, reaction: map[string]*Poly{"A/" + d: intPoly(1)}}
				k.reports("usable", part+" "+n, "the exact value", k.assertion(it.ctx().restrict(list), r.value(it), Iface{}), false)
				k.expect("usable", part+" "+n, len(r.queried) == 1 && r.queried[part+" A/"+d], "queried is %v", keysOf(r.queried))
			}
		})
	}
	k.scenario("quantities in documents", func(it *Interp) {
		for _, q := range quantityNames() {
			list, err := k.expectations(expDoc("interpolation", jobj("E", jarr(jobj("kind", jstr(q), "degree", jint(0))))))
			k.errNil("usable", "interpolation "+q, "an expectation", err)
			r := &stubResult{inter: map[string]V{"E/Fct" + q: it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), intPoly(1)))}}
			k.reports("usable", "interpolation "+q, "the exact function", k.assertion(it.ctx().restrict(list), r.value(it), Iface{}), false)
			k.expect("usable", "interpolation "+q, len(r.queried) == 1 && r.queried["interpolation E/Fct"+q], "queried is %v", keysOf(r.queried))
		}
	})
}

var _ = sort.Strings

func init() {
	register(&propSpec{
		id: "C23", min: 1000,
		rule:   "abstract interpretation of Dof.String and Fct.String for all 256 values of the types: names of the constants found by the type checker must equal their identifiers, all results are distinct, undefined values are printed with their number; documents that use each name must yield the degree of freedom or quantity of that name",
		assume: []string{"names are those of the exported constants"},
		run:    runC23,
	})
	register(&propSpec{
		id: "C24", min: 1000,
		rule:   "abstract interpretation of ExpectationsFromJSON and of the assertions of all expectations it returns on results with symbolic values; the condition under which testing.T is told about a failure must be true for each single deviation beyond the tolerance, each missing value and each unexpected or missing failure, and false for exact results and deviations within the tolerance; malformed documents must be rejected",
		assume: []string{exact, "testing.T is a model that records failures; regular expressions are an uninterpreted predicate, or evaluated if the texts are constants"},
		run:    runC24,
	})
}
