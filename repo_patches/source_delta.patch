From 95bf7b498945be4d04d355388fac7cc3388fc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:40 +0000
Subject: [PATCH 01/24] fix: plan 3D FFTs with the axis order of the node
 layout

---
 pfutil/fftWrap.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pfutil/fftWrap.go b/pfutil/fftWrap.go
index 6595fef..a238221 100644
--- a/pfutil/fftWrap.go
+++ b/pfutil/fftWrap.go
@@ -16,8 +16,14 @@ type FFTWWrapper struct {
 func NewFFTW(n []int) *FFTWWrapper {
 	var transform FFTWWrapper
 	transform.Data = make([]complex128, ProdInt(n))
-	transform.PlanFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, -1, fftw.MEASURE)
-	transform.PlanIFFT = fftw.PlanZ2Z(n, transform.Data, transform.Data, 1, fftw.MEASURE)
+	planDims := n
+	if len(n) == 3 {
+		// In 3D the node ordering is depth, row, col (see NodeIdx), and FFTW
+		// expects the slowest varying dimension first
+		planDims = []int{n[2], n[0], n[1]}
+	}
+	transform.PlanFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, -1, fftw.MEASURE)
+	transform.PlanIFFT = fftw.PlanZ2Z(planDims, transform.Data, transform.Data, 1, fftw.MEASURE)
 	transform.Dimensions = n
 	return &transform
 }
-- 
2.43.0


From 93c194d4f2883a40df70b21141d3dc691f9b9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 02/24] fix: give the cubic elastic tensor its minor symmetries

---
 elasticity/rank4.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elasticity/rank4.go b/elasticity/rank4.go
index 8426b08..8a5b2d3 100644
--- a/elasticity/rank4.go
+++ b/elasticity/rank4.go
@@ -122,6 +122,8 @@ func CubicMaterial(c11 float64, c12 float64, c44 float64) Rank4 {
 
 			tensor.Set(i, j, i, j, c44)
 			tensor.Set(j, i, j, i, c44)
+			tensor.Set(i, j, j, i, c44)
+			tensor.Set(j, i, i, j, c44)
 		}
 	}
 	return tensor
-- 
2.43.0


From df7d569164babf6673e48a96afb1fc13bc876de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 03/24] fix: contract the perturbation stress with the wave
 vector

---
 elasticity/perturbation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elasticity/perturbation.go b/elasticity/perturbation.go
index 7808a63..b21145c 100644
--- a/elasticity/perturbation.go
+++ b/elasticity/perturbation.go
@@ -54,8 +54,8 @@ func PerturbedForce(ft FourierTransform, misfit *mat.Dense, ftDisp [][]complex12
 			for k := range force {
 				f := ft.Freq(k)
 				for comp := 0; comp < dim; comp++ {
-					for q := 0; q < 3; q++ {
-						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[comp]) * strain[k]
+					for q := 0; q < dim; q++ {
+						force[k][comp] -= complex(0.0, 2.0*math.Pi*factor*matProp.At(comp, q, i, j)*f[q]) * strain[k]
 					}
 				}
 			}
-- 
2.43.0


From 2405f7e845126202899e05bcc0e6475bcde10a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 04/24] fix: register each derived field under its own name

---
 pf/model.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pf/model.go b/pf/model.go
index 140d220..12f254e 100644
--- a/pf/model.go
+++ b/pf/model.go
@@ -335,7 +335,8 @@ func (m *Model) registerTerm(name string, t PureTerm, dFields []DerivedField, te
 // RegisterDerivedFields adds a new set of derived fields to the model
 func (m *Model) registerDerivedFields(dFields []DerivedField) {
 	if dFields != nil {
-		for _, f := range dFields {
+		for i := range dFields {
+			f := dFields[i]
 			if !m.IsFieldName(f.Name) {
 				m.DerivedFields = append(m.DerivedFields, f)
 				m.Bricks[f.Name] = &f
-- 
2.43.0


From 8e8babcae47bd9e272a4ba6572e317e75392ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 05/24] fix: advance the RK4 time on every Step

---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index 72b1299..bd8f571 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -71,6 +71,7 @@ func (rk *RK4) Step(m *Model) {
 		rk.FT.IFFT(f.Data)
 		pfutil.DivRealScalar(f.Data, float64(len(f.Data)))
 	}
+	rk.CurrentStep++
 }
 
 // PrepareNextCorrection updates the final fields and rests the fields of the model to the original
@@ -130,7 +131,6 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 func (rk *RK4) Propagate(nsteps int, m *Model) {
 	for i := 0; i < nsteps; i++ {
 		rk.Step(m)
-		rk.CurrentStep++
 	}
 }
 
-- 
2.43.0


From 419f1e42033ca628c61cba1651b591b20da7cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:41 +0000
Subject: [PATCH 06/24] fix: evaluate the RK4 stages at their own times

---
 pf/rk4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rk4.go b/pf/rk4.go
index bd8f571..edb72f2 100644
--- a/pf/rk4.go
+++ b/pf/rk4.go
@@ -123,7 +123,7 @@ func (rk *RK4) correction(m *Model, kFactor []Field, factor float64) {
 	}
 
 	for i := range m.Fields {
-		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t)
+		kFactor[i].Data = m.GetRHS(i, rk.FT.Freq, t+factor*rk.Dt)
 	}
 }
 
-- 
2.43.0


From d7d5ce47d6c9c8dab35ade3ff329ac3ca81893e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:41 +0000
Subject: [PATCH 07/24] fix: evaluate all Euler right hand sides at the old
 fields

---
 pf/euler.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pf/euler.go b/pf/euler.go
index 1730189..066c0c7 100644
--- a/pf/euler.go
+++ b/pf/euler.go
@@ -23,14 +23,20 @@ func (eu *Euler) Step(m *Model) {
 		eu.FT.FFT(f.Data)
 	}
 
+	// Evaluate all right hand sides before any of the fields are altered
 	t := eu.GetTime()
+	rhs := make([][]complex128, len(m.Fields))
+	denum := make([][]complex128, len(m.Fields))
+	for i := range m.Fields {
+		rhs[i] = m.GetRHS(i, eu.FT.Freq, t)
+		denum[i] = m.GetDenum(i, eu.FT.Freq, t)
+	}
+
 	for i := range m.Fields {
-		rhs := m.GetRHS(i, eu.FT.Freq, t)
-		denum := m.GetDenum(i, eu.FT.Freq, t)
 		d := m.Fields[i].Data
 		// Apply semi implicit scheme
 		for j := range d {
-			d[j] = (d[j] + cDt*rhs[j]) / (complex(1.0, 0.0) - cDt*denum[j])
+			d[j] = (d[j] + cDt*rhs[i][j]) / (complex(1.0, 0.0) - cDt*denum[i][j])
 		}
 
 		if eu.Filter != nil {
-- 
2.43.0


From 74cc215149219486b93ce3b165465bcaffa6e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:41 +0000
Subject: [PATCH 08/24] fix: use the right hand side of each field in SDD

---
 pf/sdd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/sdd.go b/pf/sdd.go
index 14325a1..22f04b4 100644
--- a/pf/sdd.go
+++ b/pf/sdd.go
@@ -209,7 +209,7 @@ func (sdd *SDD) Step(m *Model) {
 		w1 := complex(sdd.Alpha, 0.0)
 		w2 := complex(1.0-sdd.Alpha, 0.0)
 		for j := range work {
-			work[j] = w1*rhsStart[j] + w2*rhsEnd[j]
+			work[j] = w1*rhsStart[i*m.NumNodes()+j] + w2*rhsEnd[i*m.NumNodes()+j]
 		}
 		d := m.Fields[i].Data
 		activeFtOrient := ftOrientation[i*m.NumNodes() : (i+1)*m.NumNodes()]
-- 
2.43.0


From a16d6b503e43f58fae78a4bc7e48cda5739dd6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 09/24] fix: count planes with equal first and last Miller
 index

---
 pfc/miller.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfc/miller.go b/pfc/miller.go
index 0a7d334..7a939ff 100644
--- a/pfc/miller.go
+++ b/pfc/miller.go
@@ -63,6 +63,9 @@ func NumEquivalent3D(miller Miller) int {
 	if abs(miller.L) == abs(miller.K) {
 		numEqual++
 	}
+	if abs(miller.L) == abs(miller.H) && abs(miller.K) != abs(miller.H) {
+		numEqual++
+	}
 
 	numPerm := factorial(3) / factorial(numEqual)
 	return numEq * numPerm
-- 
2.43.0


From b31d539ec7373b5abe46d2f8d6521e61d0844b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 10/24] fix: look up heat map values by position

---
 cmd/contour.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/contour.go b/cmd/contour.go
index dc70504..a917f53 100644
--- a/cmd/contour.go
+++ b/cmd/contour.go
@@ -207,7 +207,7 @@ func (h HeatMapData) Y(r int) float64 {
 
 // Z returns the value of the field
 func (h HeatMapData) Z(c, r int) float64 {
-	return h.rows[index(c, r, h.Nx)].Value
+	return h.rows[h.index[index(c, r, h.Nx)]].Value
 }
 
 func getColIndex(header []string, column string) int {
-- 
2.43.0


From 7d1d775f2367dfa4310dc5d0303dbebfa9aab742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 11/24] fix: sum over all components in the tensorial hessian

---
 pf/tensorialHessian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/tensorialHessian.go b/pf/tensorialHessian.go
index 188f575..1b22918 100644
--- a/pf/tensorialHessian.go
+++ b/pf/tensorialHessian.go
@@ -53,7 +53,7 @@ func (th *TensorialHessian) Construct(bricks map[string]Brick) Term {
 			// Off-diagonal terms
 			for j := 0; j < dim; j++ {
 				for k := j + 1; k < dim; k++ {
-					preFactor := -8.0 * math.Pi * math.Pi * f[j] * f[k] * th.GetCoeff(j, k)
+					preFactor := -4.0 * math.Pi * math.Pi * f[j] * f[k] * (th.GetCoeff(j, k) + th.GetCoeff(k, j))
 					field[i] += complex(preFactor, 0.0)
 				}
 			}
-- 
2.43.0


From c3e874ef2de4a4e54474564c10ad2ca0f53744e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 12/24] fix: apply the prefactor to the non-linear ideal
 mixture part

---
 pf/pairCorrelationTerm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/pairCorrelationTerm.go b/pf/pairCorrelationTerm.go
index 7ede0ff..96669ae 100644
--- a/pf/pairCorrelationTerm.go
+++ b/pf/pairCorrelationTerm.go
@@ -161,7 +161,7 @@ func (idt *IdealMixtureTerm) ConstructNonLinear(bricks map[string]Brick) Term {
 	return func(freq Frequency, t float64, field []complex128) {
 		if b, ok := bricks[idt.nonLinearDerivedFieldName()]; ok {
 			for i := range field {
-				field[i] = b.Get(i)
+				field[i] = complex(idt.Prefactor, 0.0) * b.Get(i)
 			}
 
 			if idt.Laplacian {
-- 
2.43.0


From 4b3aa85972c6a5b023f2e46bc8b33a6587791e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 13/24] fix: let the advection term satisfy the PureTerm
 interface

---
 pf/advection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/advection.go b/pf/advection.go
index 9408dfc..b8f20cd 100644
--- a/pf/advection.go
+++ b/pf/advection.go
@@ -95,4 +95,4 @@ func (ad *Advection) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (ad *Advection) OnStepFinished(t float64) {}
+func (ad *Advection) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From 66820538c1a8145163df46617101ee1f6cf81fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 14/24] fix: let DivGrad and WeightedLaplacian satisfy the
 PureTerm interface

---
 pf/gradientCalculator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pf/gradientCalculator.go b/pf/gradientCalculator.go
index 60ab932..7c76f6b 100644
--- a/pf/gradientCalculator.go
+++ b/pf/gradientCalculator.go
@@ -106,7 +106,7 @@ func (dg *DivGrad) Construct(bricks map[string]Brick) Term {
 }
 
 // OnStepFinished does nothing as we don't need any updates in between steps
-func (dg *DivGrad) OnStepFinished(t float64) {}
+func (dg *DivGrad) OnStepFinished(t float64, bricks map[string]Brick) {}
 
 // WeightedLaplacian is a type used to represent terms of the form
 // F(c) LAP <field>, where F is a function of all the fields.
@@ -158,3 +158,6 @@ func (wl *WeightedLaplacian) Construct(bricks map[string]Brick) Term {
 		wl.FT.FFT(field)
 	}
 }
+
+// OnStepFinished does nothing as we don't need any updates in between steps
+func (wl *WeightedLaplacian) OnStepFinished(t float64, bricks map[string]Brick) {}
-- 
2.43.0


From b80bf4c28dbd0189857b138a392d37c4188f20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 15/24] fix: do not cap Voronoi distances at 32 bits

---
 pfutil/voronoi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfutil/voronoi.go b/pfutil/voronoi.go
index 5726644..80c8777 100644
--- a/pfutil/voronoi.go
+++ b/pfutil/voronoi.go
@@ -39,7 +39,7 @@ func absInt(x int) int {
 }
 
 func closestPoint(pts []int, point int, domainSize []int) int {
-	mindistSq := math.MaxInt32
+	mindistSq := math.MaxInt64
 	bestPoint := 0
 	for i := range pts {
 		distSq := pointDistSq(pts[i], point, domainSize)
-- 
2.43.0


From 9a9fadc6ba423510298d8c13373aec4cdf67a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 16/24] fix: start every node of Draw in the plane

---
 pfutil/shapes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfutil/shapes.go b/pfutil/shapes.go
index d916d33..3487d64 100644
--- a/pfutil/shapes.go
+++ b/pfutil/shapes.go
@@ -107,6 +107,9 @@ func Draw(shape Shape, grid *Grid, transformation *Affine, value float64) {
 	floatPos := make([]float64, 3)
 	for i := range grid.Data {
 		pos := grid.Pos(i)
+		for j := range floatPos {
+			floatPos[j] = 0.0
+		}
 		for j := range pos {
 			floatPos[j] = float64(pos[j])
 		}
-- 
2.43.0


From afdf8498a3588012ffb08aa0312b0f13c84a130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:29 +0000
Subject: [PATCH 17/24] fix: accept names shorter than three characters in
 equations

---
 pf/rhsBuilder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 16b2ca8..1bffef1 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -115,9 +115,7 @@ func ValidName(name string, model *Model) bool {
 		}
 	}
 
-	if nameStripped[:3] == "LAP" {
-		nameStripped = nameStripped[3:]
-	}
+	nameStripped = strings.TrimPrefix(nameStripped, "LAP")
 	return model.IsBrickName(nameStripped) || model.IsFieldName(nameStripped)
 }
 
-- 
2.43.0


From 2f1cc045a6a9f9681091b0a9c83253d71320f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:15 +0000
Subject: [PATCH 18/24] fix: find the field part of a term next to scalars and
 laplacians

---
 pf/rhsBuilder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 1bffef1..590ef23 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -133,20 +133,27 @@ func ConcreteTerm(termDelim SubStringDelimiter, m *Model) Term {
 	brickNames := []string{}
 	powers := []float64{}
 
+	// Factors of the field part of the term (without scalars and laplacians)
+	fieldFactors := []string{}
+
 	nameNoPow := regexp.MustCompile("^[^\\^]*")
+	lapPrefix := regexp.MustCompile("^LAP(\\^\\d+)?")
 	for i := range res {
-		name := nameNoPow.FindString(res[i][0])
+		factor := lapPrefix.ReplaceAllString(res[i][0], "")
+		name := nameNoPow.FindString(factor)
 
 		if !m.IsFieldName(name) && m.IsBrickName(name) {
 			brickNames = append(brickNames, name)
-			powers = append(powers, GetPower(res[i][0]))
+			powers = append(powers, GetPower(factor))
 		} else if !ValidName(name, m) {
 			msg := fmt.Sprintf("rhsBuilder: Name %s is not defined!", name)
 			panic(msg)
+		} else {
+			fieldFactors = append(fieldFactors, factor)
 		}
 	}
 
-	fieldName := GetFieldName(SortFactors(term), m.AllFieldNames())
+	fieldName := GetFieldName(SortFactors(strings.Join(fieldFactors, "*")), m.AllFieldNames())
 
 	if strings.Contains(term, "LAP") {
 		// Term with Laplace operator
-- 
2.43.0


From 0be5a01f7987fc37542c3f21b73741eb58f55b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:54 +0000
Subject: [PATCH 19/24] fix: read the power of the field itself in isBilinear

---
 pf/rhsBuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index 590ef23..b117400 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -87,7 +87,7 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 	}
 
 	// Match the field name until * or / is found
-	regIncludingPowers := regexp.MustCompile(field + "*[^/\\*]*")
+	regIncludingPowers := regexp.MustCompile(field + "[^/\\*]*")
 	res := regIncludingPowers.FindString(term)
 
 	// Extract an power (if exists) (the number after ^)
-- 
2.43.0


From 59829b02a23e6d1cc6de751dea6ebcd2c92d9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:55 +0000
Subject: [PATCH 20/24] fix: match derived field names literally in isBilinear

---
 pf/rhsBuilder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pf/rhsBuilder.go b/pf/rhsBuilder.go
index b117400..b5f8a75 100644
--- a/pf/rhsBuilder.go
+++ b/pf/rhsBuilder.go
@@ -79,9 +79,7 @@ func isBilinear(term string, field string, fieldNames []string) bool {
 		if f == field {
 			continue
 		}
-		r := regexp.MustCompile(f)
-		count := r.FindAllStringIndex(term, -1)
-		if len(count) > 0 {
+		if strings.Contains(term, f) {
 			return false
 		}
 	}
-- 
2.43.0


From 01f2d03c7a659934ba3bb86bf0b580012ce374ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:31 +0000
Subject: [PATCH 21/24] fix: document the order of the 3D conductivity entries
 as it is used (yz, xz, xy)

---
 pf/chargeTransport.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pf/chargeTransport.go b/pf/chargeTransport.go
index 89f5839..c20b4fb 100644
--- a/pf/chargeTransport.go
+++ b/pf/chargeTransport.go
@@ -32,7 +32,7 @@ import (
 // and r is the real space position vector. E_ext is the external electric field
 type ChargeTransport struct {
 	// Conductivity return the conductivity tensor at node i. If 3D
-	// the order should be s_xx, s_yy, s_zz, s_xz, s_yz, s_xy and if 2D
+	// the order should be s_xx, s_yy, s_zz, s_yz, s_xz, s_xy and if 2D
 	// it should be s_xx, s_yy, s_xy. The vacuum permittivity should be embeded
 	// in the conductivity. Thus, if the "normal" conductiviy in Ohm's law is
 	// labeled sigma, the current density is given by j = sigma*E, this function
-- 
2.43.0


From 82c1b5aed0122c33b8ffc63ffb657b85af801970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 22/24] fix: ReciprocalCell.CellChange uses the transpose of
 the real space change

The cell vectors are columns, M = 2 pi C^{-T}, so to first order
dM = -1/(2 pi) M dC^T M. Changes that are not symmetric gave the
transposed change.
---
 pfc/lattice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfc/lattice.go b/pfc/lattice.go
index 60962bd..2ddb2ec 100644
--- a/pfc/lattice.go
+++ b/pfc/lattice.go
@@ -47,7 +47,7 @@ func (rc *ReciprocalCell) HKLVector(miller Miller) []float64 {
 func (rc *ReciprocalCell) CellChange(realSpaceChange *mat.Dense) *mat.Dense {
 	r, c := realSpaceChange.Dims()
 	change := mat.NewDense(r, c, nil)
-	change.Product(rc.CellVec, realSpaceChange, rc.CellVec)
+	change.Product(rc.CellVec, realSpaceChange.T(), rc.CellVec)
 	change.Scale(-1.0/(2.0*math.Pi), change)
 	return change
 }
-- 
2.43.0


From 2a98b6ec0ffece51bdedc402a089e96d9763cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 23/24] fix: match elastic properties also with a single mode

---
 pfc/mode_solver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pfc/mode_solver.go b/pfc/mode_solver.go
index 3010487..a4b56ed 100644
--- a/pfc/mode_solver.go
+++ b/pfc/mode_solver.go
@@ -435,7 +435,9 @@ func (ms *ModeSolver) MatchElasticProp(properties map[string]float64) ElasticPro
 		initX[i] = 1.0
 	}
 	initX[0] = 1.0
-	initX[1] = 0.01
+	if len(initX) > 1 {
+		initX[1] = 0.01
+	}
 	optRes, _ := optimize.Minimize(problem, initX, nil, nil)
 
 	fitRes := ElasticPropResult{
-- 
2.43.0


From ec0a2a0153274e2ea31c9aca307ca0d46e707add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:04 +0000
Subject: [PATCH 24/24] fix: lineplot plots the fields given with -d, including
 the first ones

---
 cmd/lineplot.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/lineplot.go b/cmd/lineplot.go
index f195efd..519c6d5 100644
--- a/cmd/lineplot.go
+++ b/cmd/lineplot.go
@@ -93,16 +93,17 @@ To plot data along a line, at least two of -x, -y and -z must be specified.
 			return
 		}
 
-		fields, err := cmd.Flags().GetString("fields")
+		fields, err := cmd.Flags().GetString("data")
+		if err != nil {
+			log.Fatalf("Could not read the fields: %s\n", err)
+			return
+		}
 
 		var fieldArray []string
 		if fields == "" {
 			fieldArray = readHeader(fname)[3:]
 		} else {
-			splitted := strings.Split(fields, ",")
-			for i := 4; i < len(splitted); i++ {
-				fieldArray = append(fieldArray, splitted[i])
-			}
+			fieldArray = strings.Split(fields, ",")
 		}
 
 		plt := plot.New()
-- 
2.43.0

