From 413c15f8f0cce0b9f2d6f5e8284499d1fa95cf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 01/17] fix: account for prescribed displacements when no
 Dirichlet value is zero

The flag deciding whether the known primary values enter the right hand side
was inverted, so a problem in which every Dirichlet value is non-zero was
solved as if all of them were zero.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From 6b5fd9c04fcee128a5856109102d06005a021307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 02/17] fix: reject polynomial evaluation beyond the upper end
 of the domain

The tolerance at the upper end was 1e10 instead of 1e-10.
---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From cf1d0df444e371387271bcd5e5bcb5e0d1bc6ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 03/17] fix: remove loads from the truss and beam part of a
 frame

Loads are stored in the parts, but RemoveLoad was promoted from the embedded
oneDimElement of the frame, which never holds any.
---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 913b79d212881bab534557e5cf2963f1e10aaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 04/17] fix: don't accept load types unknown to a truss

The load kind defaulted to Ux, so that an unknown load type was reported as
applied, while it had no effect.
---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From 2dcc289753657a404c56b29cd223a93b8d30abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 05/17] fix: reject negative roll angle of constants-based
 cross sections

This is documented, and it is what the rectangular cross section does.
---
 deflect/cross_sections.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..f877b77 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -45,6 +45,9 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 	if cs.ixx < 0 {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section constant roll = %v", cs.roll))
+	}
 
 	return &cs, err
 }
-- 
2.43.0


From 834f8c92b093784aa1dddf0e09e1807132281dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 06/17] fix: re-create inclined support buffers when the system
 size changes

Solving a problem again after elements were added panicked.
---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From 9e6d0ffea29262654f4324029c2c189a478b48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 07/17] fix: undo equation transforms in reverse order

Transforms that share a degree of freedom, e.g. two inclined supports at a node
in 3d, don't commute. Undoing them in the order they were applied mixed up the
global primary values and reactions.
---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..af8e7c2 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,8 +90,9 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// Transformations can act on the same degree of freedom, so undo them in reverse order:
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From ef5b38c877f85614c2709f5fa519f02e315b5a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 08/17] fix: don't report loads on free dofs as reactions

The right hand side of the free partition was left in the result vector, so
that Reaction/ReactionAll returned loads for free dofs, and a load at a node
with an inclined support ended up in the reported support reaction.
---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index af8e7c2..b75a4cb 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -89,6 +89,9 @@ func (s *linearSolver) Solve(
 	r1.AddVec(r1, scratch)
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
+	// There are no reactions at free dofs. The loads in [r_2] must not be taken for reactions, in
+	// particular not by transforms that link free and constrained dofs:
+	r2.Zero()
 
 	// Transformations can act on the same degree of freedom, so undo them in reverse order:
 	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
-- 
2.43.0


From 2b8b54cce04c358e645b273f357fb7b2b8e09860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:48 +0000
Subject: [PATCH 09/17] fix: return an error instead of panicking without
 Dirichlet BCs

---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index b75a4cb..2828816 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -113,6 +114,8 @@ func (s *linearSolver) Solve(
 func (s *linearSolver) initialise(dim, constrained int) error {
 	if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	} else if constrained == 0 {
+		return errors.New("can't solve a BVP with no Dirichlet BC")
 	}
 
 	s.dim = dim
-- 
2.43.0


From 551f4ce3d409f46e0a419133e80242f0422b06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 10/17] fix: decouple results from the buffers of the solver

Solving another problem with the same solver overwrote previous results.
---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 2828816..4d2fc53 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -104,8 +104,8 @@ func (s *linearSolver) Solve(
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(d), // The solver re-uses its buffers upon the next call
+		r:        mat.VecDenseCopyOf(r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From d8a0e3788f4a7916f4b955c8b89ecc491bec8d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 11/17] fix: don't lose index lookup failures in elements and
 transformers

EqLayout is passed by value to elements and transformers, such that failed
lookups were only recorded in a copy, and the zero index was silently used.
---
 deflect/eq_layout.go         | 26 ++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..b2512d5 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,13 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// Shared between copies, as an EqLayout is passed by value to elements and transformers:
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +64,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +80,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +98,9 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if failure != nil {
+		*el.lookupFailures = lookupFailures{}
+	}
 
 	return failure
 }
@@ -103,7 +113,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 4d2fc53..fba7e9e 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -35,6 +35,9 @@ func (s *linearSolver) Solve(
 		return nil, err
 	}
 
+	// Lookup failures of this call must not interfere with other users of the same layout
+	indices.lookupFailures = &lookupFailures{}
+
 	// Local typing shortcuts
 	k, r, d, scratch := s.eqn.k, s.eqn.r, s.eqn.d, s.eqn.scratch
 	k11, k12, k22 := s.eqn.k11, s.eqn.k12, s.eqn.k22
-- 
2.43.0


From a2767e3a552cf6429c607980bb576ea10e390dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 12/17] fix: don't accept concentrated loads beyond the end of
 an element

Such a load was accepted, and the shape functions were extrapolated.
---
 deflect/beam2d.go          | 4 +++-
 deflect/one_dim_element.go | 5 +++++
 deflect/truss2d.go         | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..f5dbfcc 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -180,7 +180,9 @@ func (b *beam2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(l *neumannConcentrated) { supported = l.kind == Uz || l.kind == Phiy },
+		func(l *neumannConcentrated) {
+			supported = (l.kind == Uz || l.kind == Phiy) && b.contains(l.position)
+		},
 		func(l *neumannConstant) { supported = l.kind == Uz },
 		func(l *neumannLinear) { supported = l.kind == Uz })
 
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..5b2faf4 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -45,6 +45,11 @@ func (e *oneDimElement) RemoveLoad(bc NeumannElementBC) {
 	}
 }
 
+// contains returns true if the local coordinate x is approximately within the element domain.
+func (e *oneDimElement) contains(x float64) bool {
+	return x <= length(e.n0, e.n1)+1e-10
+}
+
 func (e *oneDimElement) NumNodes() uint {
 	return 2
 }
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index b708a4f..b468d54 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -125,7 +125,7 @@ func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
 	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConcentrated) { supported = load.kind == Ux && t.contains(load.position) },
 		func(load *neumannConstant) { supported = load.kind == Ux },
 		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
-- 
2.43.0


From b8f6d40e8395c40ba9782a5462428cc47f846e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 13/17] fix: reject inclined supports that link a dof with
 itself

---
 deflect/problem_from_json.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..6fd11f1 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -560,6 +560,12 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if dofFrom == dofTo {
+				err = errors.Join(
+					err,
+					fmt.Errorf("inclined support at %v must link distinct dofs, got %v twice", nodeID, dofTo),
+				)
+				continue
 			}
 
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
@@ -570,7 +576,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 4e0210edc8e9c20a811d6649ebddcb839c280461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 14/17] fix: reject nodes without exactly three coordinates

---
 deflect/problem_from_json.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 6fd11f1..056fd6e 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -72,7 +72,7 @@ type elmtDescription struct {
 // ProblemFromJSON parses the given JSON data and constructs a boundary value problem from it.
 func ProblemFromJSON(data []byte) (Problem, error) {
 	var tmp struct {
-		Nodes        map[string][3]float64
+		Nodes        map[string][]float64
 		Material     map[string]matDescription
 		Crosssection map[string]csDescription
 		Elements     map[string]elmtDescription
@@ -124,9 +124,12 @@ func ProblemFromJSON(data []byte) (Problem, error) {
 	return result, nil
 }
 
-func translateNodes(from map[string][3]float64) ([]Node, error) {
+func translateNodes(from map[string][]float64) ([]Node, error) {
 	nodes := make([]Node, 0, len(from))
 	for id, coor := range from {
+		if n := len(coor); n != 3 {
+			return nodes, fmt.Errorf("node '%v' must have 3 coordinates, got %v", id, n)
+		}
 		nodes = append(nodes, Node{ID: id, X: coor[0], Y: coor[1], Z: coor[2]})
 	}
 
-- 
2.43.0


From 0be44dc56e10d5e5d9febaa937bc6f375401dd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 15/17] fix: reject positions of loads that span the entire
 element

---
 deflect/problem_from_json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 056fd6e..592170f 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -512,14 +512,14 @@ func translateElementNeumannBC(desc *neumannDescription) (NeumannElementBC, erro
 			load, err = NewElementConcentratedLoad(kind, pos[0], values[0])
 		}
 	case "constant":
-		if numValues != 1 {
-			err = fmt.Errorf("constant load must have 1 value, got %v", numValues)
+		if numValues != 1 || numPos != 0 {
+			err = fmt.Errorf("constant load must have 1 value, no position, not %v and %v", values, pos)
 		} else {
 			load = NewElementConstantLoad(kind, values[0])
 		}
 	case "linear":
-		if numValues != 2 {
-			err = fmt.Errorf("linear load must have 2 values, got %v", numValues)
+		if numValues != 2 || numPos != 0 {
+			err = fmt.Errorf("linear load must have 2 values, no position, not %v and %v", values, pos)
 		} else {
 			load = NewElementLinearLoad(kind, values[0], values[1])
 		}
-- 
2.43.0


From bb5c137e16c2e1a88eedaaa3a751701c6d49fd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 16/17] fix: treat empty interpolation ranges like absent ones

---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..b925771 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0


From 22787b11fc958d0ab8e7a9c9ba1bc48ab8ff3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:09 +0000
Subject: [PATCH 17/17] fix: return an error for layouts with less unknowns
 than Dirichlet BCs

---
 deflect/linear_bvp_solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index fba7e9e..3a50989 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -115,7 +115,7 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	if dim <= constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
 	} else if constrained == 0 {
 		return errors.New("can't solve a BVP with no Dirichlet BC")
-- 
2.43.0

