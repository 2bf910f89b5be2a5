package main

// Piecewise polynomials.

import (
	"fmt"
	"go/types"
)

func (it *Interp) seqMethod(name string, seq V, args ...V) V {
	fn := it.prog.methodByName(it.prog.typ("PolySequence"), name)
	if fn == nil {
		unsupported("PolySequence.%v not found (unresolved anchor)", name)
	}
	return it.callFn(fn, append([]V{seq}, args...), nil, nil)
}

func (it *Interp) pieceMethod(name string, p Ptr, args ...V) V {
	fn := it.prog.methodByName(types.NewPointer(it.prog.typ("PolyPiece")), name)
	if fn == nil {
		unsupported("PolyPiece.%v not found (unresolved anchor)", name)
	}
	return it.callFn(fn, append([]V{p}, args...), nil, nil)
}

func coeffs(n int) upoly {
	var r upoly
	for i := 0; i < n; i++ {
		r = append(r, sym(fmt.Sprint("c", i)))
	}
	return r
}

func runC17(k *Check) {
	k.evaluation()
	k.lookup()
	k.trimming()
	k.merging()
	k.boundaries()
	k.tolerances()
	k.interpScenarios(interpRules{tiles: "tiling"})
	k.nearScenarios(interpRules{tiles: "tiling"})
	k.manyScenarios(interpRules{tiles: "tiling"})
}

func (k *Check) evaluation() {
	const margin = 1000000000
	for n := 1; n <= 12; n++ {
		k.scenario(fmt.Sprintf("evaluation, %d coefficients", n), func(it *Interp) {
			co := coeffs(n)
			pt := it.prog.typ("PolyPiece")
			x0 := sym("x0")
			in := x0.Add(psym("u"))
			xe := in.Add(psym("v"))
			pp := it.ptrTo("piece", pt, it.mkPiece(x0, xe, co...))
			before := it.deep(pp, map[*Obj]bool{})
			for _, x := range []struct {
				what string
				x    *Poly
			}{{"inside", in}, {"at the lower end", x0}, {"at the upper end", xe}} {
				y, err := it.split(it.pieceMethod("Eval", pp, num(x.x)))
				k.errNil("evaluation", "PolyPiece.Eval", "evaluation "+x.what, err)
				k.eq("evaluation", "PolyPiece.Eval", "value "+x.what, y, co.at(x.x))
			}
			for _, x := range []struct {
				what string
				x    *Poly
			}{{"below", x0.Sub(psym("w")).Sub(ratPoly(1, margin))}, {"beyond", xe.Add(psym("w")).Add(ratPoly(1, margin))}} {
				_, err := it.split(it.pieceMethod("Eval", pp, num(x.x)))
				k.errSet("evaluation", "PolyPiece.Eval", "evaluation "+x.what+" the domain", err)
			}
			k.eq("evaluation", "PolyPiece.Degree", "degree", it.pieceMethod("Degree", pp), Int(n-1))
			k.expect("evaluation", "PolyPiece", it.deep(pp, map[*Obj]bool{}) == before, "evaluation changes the polynomial")
		})
	}
}

// lookup: bounds x0 < x1 < ..., any two of them more than 1 apart.
func (k *Check) lookup() {
	for _, n := range []int{0, 1, 2, 3, 4, 5, 9, 17} {
		for _, order := range []string{"ascending", "descending", "gap"} {
			k.scenario(fmt.Sprintf("lookup in %d pieces, %v", n, order), func(it *Interp) {
				var xs []*Poly
				x := zeroPoly
				for i := 0; i <= n; i++ {
					xs = append(xs, x)
					x = x.Add(psym(fmt.Sprint("l", i))).Add(intPoly(1))
				}
				var ps []V
				at := map[[2]int]int{}
				for i := 0; i < n; i++ {
					j := i
					if order == "descending" {
						j = n - 1 - i
					}
					if order == "gap" && i == 1 {
						continue
					}
					at[[2]int{j, j + 1}] = len(ps)
					ps = append(ps, it.mkPiece(xs[j], xs[j+1], sym("c")))
				}
				s := it.mkSeq(ps...)
				for i := range xs {
					for j := range xs {
						if n > 5 && j != i+1 && (i+j)%7 != 0 {
							continue
						}
						want, ok := at[[2]int{i, j}]
						if !ok {
							want = -1
						}
						k.eq("lookup", "PolySequence.IntervalIndex", fmt.Sprintf("index of [%v, %v] in %v", xs[i], xs[j], show(s)), it.seqMethod("IntervalIndex", s, num(xs[i]), num(xs[j])), Int(want))
						for _, d := range []*Poly{ratPoly(1, 2), ratPoly(-1, 2)} {
							k.eq("lookup", "PolySequence.IntervalIndex", fmt.Sprintf("index of [%v, %v]", xs[i].Add(d), xs[j]), it.seqMethod("IntervalIndex", s, num(xs[i].Add(d)), num(xs[j])), Int(-1))
							k.eq("lookup", "PolySequence.IntervalIndex", fmt.Sprintf("index of [%v, %v]", xs[i], xs[j].Add(d)), it.seqMethod("IntervalIndex", s, num(xs[i]), num(xs[j].Add(d))), Int(-1))
						}
					}
				}
			})
		}
	}
}

func (k *Check) trimming() {
	const what = "PolySequence.TrimTrailingZeros"
	for n := 1; n <= 5; n++ {
		for ti, tol := range []func() *Poly{
			func() *Poly { return ratPoly(1, 1000) },
			func() *Poly { return zeroPoly },
			func() *Poly { return psym("tol") },
		} {
			k.scenario(fmt.Sprintf("trimming %d coefficients, tolerance %d", n, ti), func(it *Interp) {
				tol := tol()
				co := coeffs(n)
				L1 := psym("l1")
				xs := []*Poly{zeroPoly, L1, L1.Add(psym("l2")), L1.Add(psym("l2")).Add(psym("l3"))}
				others := [][]*Poly{{sym("d")}, {psym("big").Add(intPoly(1)).Add(tol), zeroPoly, intPoly(-1).Sub(tol).Sub(psym("big2"))}}
				s := it.mkSeq(it.mkPiece(xs[0], xs[1], others[0]...), it.mkPiece(xs[1], xs[2], co...), it.mkPiece(xs[2], xs[3], others[1]...))
				it.seqMethod("TrimTrailingZeros", s, num(tol))
				k.withPieces([]V{s}, func(pss [][]piece) {
					ps := pss[0]
					if !k.expect("trimming", what, len(ps) == 3, "%d pieces instead of 3", len(ps)) {
						return
					}
					for i, p := range ps {
						k.eq("trimming", what, "lower bound", p.x0, xs[i])
						k.eq("trimming", what, "upper bound", p.xe, xs[i+1])
					}
					small := func(c *Poly) V { return it.ctx().and(it.le0(c.Sub(tol)), it.le0(c.Neg().Sub(tol))) }
					large := func(c *Poly) V { return it.any(it.le0(tol.Sub(c)), it.le0(tol.Add(c))) }
					check := func(got, co []*Poly) {
						if !k.expect("trimming", what, len(got) >= 1 && len(got) <= len(co), "%d of %d coefficients left", len(got), len(co)) {
							return
						}
						for i, c := range co {
							switch {
							case i >= len(got):
								k.holds("trimming", what, fmt.Sprintf("dropped coefficient %v is within the tolerance", c), small(c))
							case i == 0 && got[i].isZeroSyn():
								k.holds("trimming", what, fmt.Sprintf("truncated constant %v is within the tolerance", c), small(c))
							case i == 0:
								k.eq("trimming", what, "first coefficient", got[i], c)
								k.holds("trimming", what, fmt.Sprintf("constant %v is kept, so it is not within the tolerance", c), large(c))
							default:
								k.eq("trimming", what, fmt.Sprintf("coefficient %d", i), got[i], c)
								if i == len(got)-1 && i > 0 {
									k.holds("trimming", what, fmt.Sprintf("last coefficient %v is not within the tolerance", c), large(c))
								}
							}
						}
					}
					check(ps[0].co, others[0])
					check(ps[1].co, co)
					check(ps[2].co, others[1])
				})
			})
		}
	}
	k.scenario("trimming long polynomials", func(it *Interp) {
		tol := ratPoly(1, 1000)
		small := []*Poly{ratPoly(1, 2000), ratPoly(-1, 3000), zeroPoly}
		for n := 2; n <= 14; n++ {
			for keep := 0; keep <= n; keep++ {
				for _, inner := range small { // small coefficients below the last large one stay
					var co, want []*Poly
					for i := 0; i < n; i++ {
						c := small[(i+keep)%3]
						if i == keep-1 {
							c = psym("c").Add(intPoly(int64(i + 1)))
						} else if i < keep-1 {
							c = inner
							if i%3 == 0 {
								c = psym("d").Neg().Sub(intPoly(1))
							}
						}
						co = append(co, c)
					}
					want = append(want, co[:max(keep, 1)]...)
					if keep == 0 {
						want[0] = zeroPoly
					}
					ps := []V{it.mkPiece(zeroPoly, intPoly(1), want...), it.mkPiece(intPoly(1), intPoly(2), co...), it.mkPiece(intPoly(2), intPoly(3), co...)}
					s := it.mkSeq(ps...)
					it.seqMethod("TrimTrailingZeros", s, num(tol))
					k.withPieces([]V{s}, func(pss [][]piece) {
						for i, p := range pss[0] {
							k.expect("trimming", what, len(pss[0]) == 3 && sameCoeffs(p.co, want), "trimming %d coefficients gives %v in piece %d, must be %v", n, p.co, i, want)
						}
					})
				}
			}
		}
	})
	k.scenario("trimming many pieces", func(it *Interp) {
		for _, n := range []int{6, 9, 17, 33} {
			var ps []V
			for i := 0; i < n; i++ {
				ps = append(ps, it.mkPiece(intPoly(int64(i)), intPoly(int64(i+1)), intPoly(int64(i+1)), intPoly(2), zeroPoly, ratPoly(1, 5000)))
			}
			s := it.mkSeq(ps...)
			it.seqMethod("TrimTrailingZeros", s, num(ratPoly(1, 1000)))
			k.withPieces([]V{s}, func(pss [][]piece) {
				k.expect("trimming", what, len(pss[0]) == n, "%d pieces instead of %d", len(pss[0]), n)
				for i, p := range pss[0] {
					k.expect("trimming", what, sameCoeffs(p.co, []*Poly{intPoly(int64(i + 1)), intPoly(2)}), "piece %d of %d has coefficients %v", i, n, p.co)
				}
			})
		}
	})
	k.scenario("trimming nothing", func(it *Interp) {
		it.seqMethod("TrimTrailingZeros", Slice{}, num(ratPoly(1, 1000)))
		it.seqMethod("TrimTrailingZeros", it.mkSeq(), num(ratPoly(1, 1000)))
		k.pass("trimming", what)
	})
}

// merging: bounds and coefficients are clearly different or identical, for arbitrary scales.
func (k *Check) merging() {
	const what = "PolySequence.CompactIdentical"
	patterns := func(s, a, b *Poly) [][]*Poly {
		return [][]*Poly{{s}, {s.Add(s)}, {s, s.Add(s)}, {s, a.Add(s), b}, {s, s.Scale(ratInt(3))}, {zeroPoly}, {s.Neg()}}
	}
	n := 3
	if k.thor {
		n = 4
	}
	np := 7
	for length := 0; length <= n; length++ {
		total := 1
		for i := 0; i < length; i++ {
			total *= np
		}
		for _, layout := range []string{"contiguous", "gap", "descending"} {
			if layout != "contiguous" && length < 2 {
				continue
			}
			k.scenario(fmt.Sprintf("merging %d pieces, %v", length, layout), func(it *Interp) {
				one := intPoly(1)
				s := psym("s").Add(one)
				pats := patterns(s, psym("a"), psym("b").Add(one))
				lo := make([]*Poly, length)
				hi := make([]*Poly, length)
				lambda := psym("l").Add(one) // any two bounds are clearly different, whatever the scale
				x := zeroPoly
				for i := 0; i < length; i++ {
					lo[i] = x
					x = x.Add(lambda.Scale(ratInt(i + 1)))
					hi[i] = x
					if layout == "gap" && i == length-2 {
						x = x.Add(x)
					}
				}
				if layout == "descending" {
					for i, j := 0, length-1; i < j; i, j = i+1, j-1 {
						lo[i], lo[j], hi[i], hi[j] = lo[j], lo[i], hi[j], hi[i]
					}
				}
				base := it.st
				for c := 0; c < total; c++ {
					it.st = base.child(base.ctx)
					var in []piece
					var vs []V
					for i, r := 0, c; i < length; i++ {
						in = append(in, piece{lo[i], hi[i], pats[r%np]})
						vs = append(vs, it.mkPiece(lo[i], hi[i], pats[r%np]...))
						r /= np
					}
					// expected: runs of adjacent pieces with identical coefficients
					var want []piece
					for i, p := range in {
						if i > 0 && k.sameNum(in[i-1].xe, p.x0) && sameCoeffs(in[i-1].co, p.co) {
							want[len(want)-1].xe = p.xe
						} else {
							want = append(want, p)
						}
					}
					for _, tol := range []*Poly{ratPoly(1, 1000), zeroPoly} {
						r := it.seqMethod("CompactIdentical", it.mkSeq(vs...), num(tol))
						k.withPieces([]V{r}, func(pss [][]piece) {
							got := pss[0]
							good := len(got) == len(want)
							for i := 0; good && i < len(got); i++ {
								good = k.sameNum(got[i].x0, want[i].x0) && k.sameNum(got[i].xe, want[i].xe) && sameCoeffs(got[i].co, want[i].co)
							}
							k.expect("merging", what, good, "merging %v gives %v, must be %v", showPieces(it.ctx(), in), showPieces(it.ctx(), got), showPieces(it.ctx(), want))
						})
					}
				}
				it.st = base
			})
		}
	}
	k.scenario("merging long polynomials", func(it *Interp) {
		for n := 1; n <= 12; n++ {
			for at := -1; at <= n; at++ { // where the second differs: nowhere, at one coefficient, by one more
				a, b := []*Poly{}, []*Poly{}
				for i := 0; i < n; i++ {
					c := intPoly(int64(i + 2))
					a = append(a, c)
					if i == at {
						c = c.Add(intPoly(1))
					}
					b = append(b, c)
				}
				if at == n {
					b = append(b, intPoly(1))
				}
				want := 2
				if at < 0 {
					want = 1
				}
				for _, co := range [][2][]*Poly{{a, b}, {b, a}} {
					r := it.seqMethod("CompactIdentical", it.mkSeq(it.mkPiece(zeroPoly, intPoly(1), co[0]...), it.mkPiece(intPoly(1), intPoly(2), co[1]...)), num(ratPoly(1, 1000)))
					k.withPieces([]V{r}, func(pss [][]piece) {
						ps := pss[0]
						good := len(ps) == want && sameCoeffs(ps[0].co, co[0]) && k.sameNum(ps[0].x0, zeroPoly) && k.sameNum(ps[want-1].xe, intPoly(2))
						k.expect("merging", what, good, "merging coefficients %v and %v gives %v", co[0], co[1], showPieces(it.ctx(), ps))
					})
				}
			}
		}
	})
	k.scenario("merging many pieces", func(it *Interp) {
		for _, n := range []int{5, 8, 9, 17, 33} {
			for period := 1; period <= n; period++ { // identical runs of this length
				var ps []V
				for i := 0; i < n; i++ {
					ps = append(ps, it.mkPiece(intPoly(int64(i)), intPoly(int64(i+1)), intPoly(int64(i/period+1)), intPoly(1)))
				}
				r := it.seqMethod("CompactIdentical", it.mkSeq(ps...), num(ratPoly(1, 1000)))
				k.withPieces([]V{r}, func(pss [][]piece) {
					ps := pss[0]
					want := (n + period - 1) / period
					good := len(ps) == want
					for i := 0; good && i < want; i++ {
						good = k.sameNum(ps[i].x0, intPoly(int64(i*period))) && k.sameNum(ps[i].xe, intPoly(int64(min(n, (i+1)*period)))) && sameCoeffs(ps[i].co, []*Poly{intPoly(int64(i + 1)), intPoly(1)})
					}
					k.expect("merging", what, good, "merging %d pieces in runs of %d gives %v", n, period, showPieces(it.ctx(), ps))
				})
			}
		}
	})
	// a difference below the tolerance
	k.scenario("merging within the tolerance", func(it *Interp) {
		c, d := sym("c"), psym("d")
		facts.positive = append(facts.positive, ratPoly(1, 2000).Sub(d))
		L := psym("L")
		for _, co := range [][2][]*Poly{{{c}, {c.Add(d)}}, {{c.Add(d)}, {c}}, {{c, c}, {c, c.Sub(d)}}} {
			r := it.seqMethod("CompactIdentical", it.mkSeq(it.mkPiece(zeroPoly, L, co[0]...), it.mkPiece(L, L.Add(L), co[1]...)), num(ratPoly(1, 1000)))
			k.withPieces([]V{r}, func(pss [][]piece) {
				got := pss[0]
				if !k.expect("merging", what, len(got) == 1, "two pieces whose coefficients differ by less than the tolerance become %v", showPieces(it.ctx(), got)) {
					return
				}
				k.eq("merging", what, "start", got[0].x0, zeroPoly)
				k.eq("merging", what, "end", got[len(got)-1].xe, L.Add(L))
				for i, p := range got {
					k.expect("merging", what, sameCoeffs(p.co, co[0]) && (i == 0 || len(got) == 1) || sameCoeffs(p.co, co[1]), "coefficients %v", showPieces(it.ctx(), got))
				}
			})
		}
	})
}

// boundaries: constants of ordinary size that differ by a little more than the tolerance.
func (k *Check) boundaries() {
	const look, merge = "PolySequence.IntervalIndex", "PolySequence.CompactIdentical"
	k.scenario("lookup of bounds that differ by a millionth", func(it *Interp) {
		xs := []*Poly{zeroPoly, ratPoly(1, 3), intPoly(1), ratPoly(9, 4)}
		var ps []V
		for i := range xs[1:] {
			ps = append(ps, it.mkPiece(xs[i], xs[i+1], sym("c")))
		}
		s := it.mkSeq(ps...)
		for i := range xs[1:] {
			k.eq("lookup", look, "index of an existing interval", it.seqMethod("IntervalIndex", s, num(xs[i]), num(xs[i+1])), Int(i))
			for _, d := range []*Poly{ratPoly(1, 1000000), ratPoly(-1, 1000000)} {
				k.eq("lookup", look, "lower bound off by 1e-6", it.seqMethod("IntervalIndex", s, num(xs[i].Add(d)), num(xs[i+1])), Int(-1))
				k.eq("lookup", look, "upper bound off by 1e-6", it.seqMethod("IntervalIndex", s, num(xs[i]), num(xs[i+1].Add(d))), Int(-1))
			}
		}
	})
	k.scenario("merging around the tolerance", func(it *Interp) {
		one, two := intPoly(1), intPoly(2)
		far, near := ratPoly(3, 1000), ratPoly(1, 3000)
		for _, c := range []struct {
			what string
			a, b []*Poly
			gap  *Poly
			want int
		}{
			{"identical constants", []*Poly{one}, []*Poly{one}, zeroPoly, 1},
			{"constants beyond the tolerance", []*Poly{one}, []*Poly{one.Add(far)}, zeroPoly, 2},
			{"constants beyond the tolerance", []*Poly{one.Add(far)}, []*Poly{one}, zeroPoly, 2},
			{"constants within the tolerance", []*Poly{one}, []*Poly{one.Sub(near)}, zeroPoly, 1},
			{"first coefficient beyond the tolerance", []*Poly{one.Sub(far), two}, []*Poly{one, two}, zeroPoly, 2},
			{"last coefficient beyond the tolerance", []*Poly{two, one, one}, []*Poly{two, one, one.Sub(far)}, zeroPoly, 2},
			{"middle coefficient beyond the tolerance", []*Poly{two, one, one}, []*Poly{two, one.Sub(far), one}, zeroPoly, 2},
			{"opposite signs", []*Poly{far}, []*Poly{far.Neg()}, zeroPoly, 2},
			{"one degree more", []*Poly{one, two}, []*Poly{one, two, far}, zeroPoly, 2},
			{"one degree less", []*Poly{one, two, far}, []*Poly{one, two}, zeroPoly, 2},
			{"a gap beyond the tolerance", []*Poly{one, two}, []*Poly{one, two}, far, 2},
			{"an overlap beyond the tolerance", []*Poly{one, two}, []*Poly{one, two}, far.Neg(), 2},
		} {
			for _, end := range []*Poly{one, ratPoly(1, 4)} {
				r := it.seqMethod("CompactIdentical", it.mkSeq(it.mkPiece(zeroPoly, end, c.a...), it.mkPiece(end.Add(c.gap), two, c.b...)), num(ratPoly(1, 1000)))
				k.withPieces([]V{r}, func(pss [][]piece) {
					k.expect("merging", merge, len(pss[0]) == c.want, "%v: merging [0, %v] and [%v, 2] gives %v", c.what, end, end.Add(c.gap), showPieces(it.ctx(), pss[0]))
				})
			}
		}
	})
}

func sameCoeffs(a, b []*Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Sub(b[i]).IsZero() {
			return false
		}
	}
	return true
}

func init() {
	register(&propSpec{
		id: "C17", min: 1000,
		rule:   "abstract interpretation of Eval, Degree, IntervalIndex, TrimTrailingZeros and CompactIdentical on sequences with symbolic bounds, coefficients, arguments and tolerances (bounded number of pieces and coefficients): values, bounds, dropped coefficients and merged runs must satisfy the stated contract in every case; element interpolations for arbitrary nodal values, loads and hinges must tile [0, L]",
		assume: []string{exact, "polynomials have at least one coefficient; at most 33 pieces and 14 coefficients"},
		run:    runC17,
	})
}
