package main

import "fmt"

// toleranceCase is a sequence of pieces that are trimmed and merged with a tolerance.
type toleranceCase struct {
	tol  *Poly
	in   []piece
	want [][]piece // alternatives for every expected piece: any of the coefficients of a merged run
}

// toleranceCases: runs of pieces that differ by much less than the tolerance, while the runs differ by much
// more; with coefficients to trim, or not. There is nothing special about the magnitude of the tolerance.
func toleranceCases(pieces int) (r []toleranceCase) {
	for _, tol := range []*Poly{zeroPoly, ratPoly(1, 1000000), ratPoly(1, 100000), ratPoly(1, 3000), ratPoly(1, 100), ratPoly(1, 7), ratPoly(1, 2)} {
		for _, period := range []int{1, 2, 3, pieces} {
			c := toleranceCase{tol: tol}
			vals := []int64{1, 10, -1, -10}
			for i := 0; i < pieces; i++ {
				v := intPoly(vals[(i/period)%4]).Add(tol.Mul(ratPoly(int64(i%2), 4)))
				rest := tol.Mul(ratPoly(int64(i%3-1), 2))
				var co, kept upoly
				switch (i / period) % 3 {
				case 0:
					co, kept = upoly{v, rest}, upoly{v}
				case 1:
					co, kept = upoly{rest, v, rest, rest}, upoly{zeroPoly, v} // the constant is within the tolerance
				default:
					co, kept = upoly{v, intPoly(2), v.Neg()}, upoly{v, intPoly(2), v.Neg()}
				}
				p := piece{intPoly(int64(2 * i)), intPoly(int64(2*i + 2)), co}
				c.in = append(c.in, p)
				p.co = kept
				if i%period == 0 {
					c.want = append(c.want, []piece{p})
				} else {
					last := &c.want[len(c.want)-1]
					for j := range *last {
						(*last)[j].xe = p.xe
					}
					p.x0 = (*last)[0].x0
					*last = append(*last, p)
				}
			}
			r = append(r, c)
		}
	}
	return
}

func (it *Interp) seqOf(ps []piece) V {
	var vs []V
	for _, p := range ps {
		vs = append(vs, it.mkPiece(p.x0, p.xe, p.co...))
	}
	return it.mkSeq(vs...)
}

// checkTolerance compares a trimmed and merged sequence with the expected one.
func (k *Check) checkTolerance(rule, what string, c toleranceCase, seq V) {
	it := k.it
	k.withPieces([]V{seq}, func(pss [][]piece) {
		ps := pss[0]
		good := len(ps) == len(c.want)
		for i := 0; good && i < len(ps); i++ {
			any := false
			for _, w := range c.want[i] {
				any = any || k.sameNum(ps[i].x0, w.x0) && k.sameNum(ps[i].xe, w.xe) && sameCoeffs(ps[i].co, w.co)
			}
			good = any
		}
		k.expect(rule, what, good, "with tolerance %v, %v becomes %v", c.tol, showPieces(it.ctx(), c.in), showPieces(it.ctx(), ps))
	})
}

func (k *Check) tolerances() {
	for _, n := range []int{1, 2, 5, 12, 26} {
		k.scenario(fmt.Sprintf("trimming and merging %d pieces with tolerances of any magnitude", n), func(it *Interp) {
			for _, c := range toleranceCases(n) {
				s := it.seqOf(c.in)
				it.seqMethod("TrimTrailingZeros", s, num(c.tol))
				k.checkTolerance("merging", "PolySequence.CompactIdentical", c, it.seqMethod("CompactIdentical", s, num(c.tol)))
			}
		})
	}
}

func (k *Check) queryTolerances(rule string) {
	for _, n := range []int{1, 2, 3, 10, 26, 90} {
		k.scenario(fmt.Sprintf("queries of %d pieces with tolerances of any magnitude", n), func(it *Interp) {
			keys := []string{"A/Ux", "A/Uz"}
			s := k.newSystem(nil, keys, []string{"A/Ux"})
			var now []piece
			var quantity string
			offered := map[string]func() V{}
			for _, f := range fctNames {
				offered[f] = func() V {
					if f != quantity {
						return Slice{}
					}
					return it.seqOf(now)
				}
			}
			el := it.interpElement("e", keys, offered, nil)
			p := it.ptrTo("problem", it.prog.typ("Problem"), it.problem(fields{
				"Elements":  it.mkSlice("Element", el),
				"Dirichlet": it.mkSlice("NodalValue", it.nodalValue("A", "Ux", intPoly(5))),
			}))
			res, err := it.split(it.callMethod(it.call1("NewLinearProblemSolver"), "Solve", p, s.layout, it.stubSolver(nil)))
			k.errNil(rule, "Solve", "solving", err)
			ti := it.prog.typ("Interpolation")
			for i, c := range toleranceCases(n) {
				now, quantity = c.in, fctNames[i%len(fctNames)]
				what := it.methodName(res, "Interpolate")
				v, err := it.split(it.callMethod(res, "Interpolate", Str{"e"}, it.fct(quantity), num(c.tol)))
				k.errNil(rule, what, "interpolation", err)
				k.checkTolerance(rule, what, c, it.field(it.ctx().restrict(v), ti, "Piecewise"))
				what = it.methodName(res, "InterpolateAll")
				all, ok := it.ctx().restrict(it.callMethod(res, "InterpolateAll", num(c.tol))).(Slice)
				if k.expect(rule, what, ok && all.len == 1, "%v interpolations instead of 1", all.len) {
					k.checkTolerance(rule, what, c, it.field(it.elems(all)[0], ti, "Piecewise"))
				}
			}
			for _, id := range []string{"", " ", "E", "e ", " e", "ee", "e\x00", "A", "0", "*"} {
				_, err := it.split(it.callMethod(res, "Interpolate", Str{id}, it.fct("FctMy"), num(ratPoly(1, 1000))))
				k.errSet(rule, it.methodName(res, "Interpolate"), fmt.Sprintf("unknown element %q", id), err)
			}
		})
	}
}
