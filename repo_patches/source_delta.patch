From 2610834029e8bfc34ef7f8d2696a60b79c98dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 01/36] fix: compare exponents of the same variable in
 Monomial.MatchesFormOf

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From 71d417f0e823f2162590dfc1804c1531bcdd4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 02/36] fix: Monomial.DerivativeWrt no longer writes to the
 receiver's exponents

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From af29ee949bc24de674dd419f10262ef89440888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 03/36] fix: derivatives of polynomial vectors and matrices
 handle constant entries and keep the receiver intact

---
 symbolic/polynomial_matrix.go |  9 +++++----
 symbolic/polynomial_vector.go | 20 +++++++++++++++-----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..767963f 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -431,17 +431,18 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Create containers
-	var dpm PolynomialMatrix
+	var dpm [][]ScalarExpression
 
 	for _, row := range pm {
-		var dpmRow []Polynomial
+		var dpmRow []ScalarExpression
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			// The derivative of a polynomial may be a constant
+			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(ScalarExpression))
 		}
 		dpm = append(dpm, dpmRow)
 	}
 
-	return dpm
+	return ConcretizeMatrixExpression(dpm)
 }
 
 // At Returns the (ii, jj)-th element of the polynomial matrix.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..49d9b36 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -381,15 +381,25 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
-	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+	var derivative []ScalarExpression
+	for _, polynomial := range pv {
+		// The derivative of a polynomial may be a constant
+		derivative = append(derivative, polynomial.DerivativeWrt(vIn).(ScalarExpression))
 	}
 
-	return derivative
+	return ConcretizeVectorExpression(derivative)
 }
 
 // IsConstantVector This method returns true if the polynomial vector is constant.
-- 
2.43.0


From 223f602f2453ef22a83cd3b95d0d2f6fd54e0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:38 +0000
Subject: [PATCH 04/36] fix: Monomial.Multiply does not append to the storage
 of its receiver

---
 symbolic/monomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..447580e 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,8 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		// (in a new slice, so that storage of m is never written to)
+		variables := append(m.Copy().VariableFactors, right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From 831b88615a56fe730bf84e9327b9e50dca7023d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:43 +0000
Subject: [PATCH 05/36] fix: Polynomial.Copy copies the exponents and factors
 of its monomials

---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..8cc25c6 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From 29c4e6e4fa5eaf8257b9805bb606b91b28b76487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 06/36] fix: Monomial.LinearCoeff handles constants and
 variables that do not occur

---
 symbolic/monomial.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 447580e..5cf56a2 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -356,11 +356,12 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	linearCoeffs := ZerosVector(len(wrtVars))
 
 	// Iterate through each variable
-	if IsLinear(m) {
+	for ii, wrtVar := range wrtVars {
 		// If the monomial is linear,
 		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+		if m.IsDegreeOneContainingVariable(wrtVar) {
+			linearCoeffs.SetVec(ii, m.Coefficient)
+		}
 	}
 
 	// Return
-- 
2.43.0


From edf4539b644beb2881c31a09863112ad07006253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 07/36] fix: variables of different environments that share an
 ID are not confused

---
 symbolic/monomial.go        |  2 +-
 symbolic/utils.go           |  2 +-
 symbolic/variable.go        | 18 +++++++++++-------
 symbolic/variable_matrix.go |  2 +-
 symbolic/variable_vector.go |  2 +-
 5 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 5cf56a2..3fc0f21 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -414,7 +414,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 
 	// Algorithm
 	containsOnlyOneFactor := len(m.VariableFactors) == 1
-	firstFactorMatchesV := m.VariableFactors[0].ID == v.ID
+	firstFactorMatchesV := m.VariableFactors[0].isSameVariableAs(v)
 	firstFactorHasDegreeOne := m.Exponents[0] == 1
 	if containsOnlyOneFactor && firstFactorMatchesV && firstFactorHasDegreeOne {
 		return true
diff --git a/symbolic/utils.go b/symbolic/utils.go
index 0285edd..3e84c74 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -83,7 +83,7 @@ func FindInSlice(xIn interface{}, sliceIn interface{}) (int, error) {
 		// Perform Search
 		xLocationInSliceIn := -1
 		for sliceIndex, sliceValue := range slice {
-			if x.ID == sliceValue.ID {
+			if x.isSameVariableAs(sliceValue) {
 				xLocationInSliceIn = sliceIndex
 			}
 		}
diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..8c84fcb 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -19,6 +19,12 @@ type Variable struct {
 	Environment Environment
 }
 
+// isSameVariableAs Returns true if v and vIn are the same variable, i.e., if their IDs
+// match and they belong to the same environment. (IDs are only unique within an environment.)
+func (v Variable) isSameVariableAs(vIn Variable) bool {
+	return (v.ID == vIn.ID) && (v.Environment == vIn.Environment)
+}
+
 // Variables This function returns a slice containing all unique variables in the variable expression v.
 func (v Variable) Variables() []Variable {
 	return []Variable{v}
@@ -60,7 +66,7 @@ func (v Variable) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for i, wrtVar := range wrtVars {
-		if v.ID == wrtVar.ID {
+		if v.isSameVariableAs(wrtVar) {
 			coeffOut.SetVec(i, 1.0)
 		}
 	}
@@ -92,7 +98,7 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 			},
 		}
 	case Variable:
-		if v.ID == right.ID {
+		if v.isSameVariableAs(right) {
 			out = Monomial{
 				Coefficient:     2.0,
 				VariableFactors: []Variable{v},
@@ -308,7 +314,7 @@ func (v Variable) Multiply(rightIn interface{}) Expression {
 		out = monomialOut
 	case Variable:
 		var monomialOut Monomial
-		if right.ID == v.ID {
+		if right.isSameVariableAs(v) {
 			monomialOut = Monomial{
 				Coefficient:     1.0,
 				VariableFactors: []Variable{v},
@@ -474,7 +480,7 @@ func (v Variable) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
-	if v.ID == vIn.ID {
+	if v.isSameVariableAs(vIn) {
 		return K(1.0)
 	} else {
 		return K(0.0)
@@ -513,9 +519,7 @@ func (v Variable) Substitute(vIn Variable, seIn ScalarExpression) Expression {
 	// Replace the variable if:
 	// 1. The IDs are the same
 	// 2. The environment is the same
-	idsMatch := v.ID == vIn.ID
-	envsMatch := v.Environment == vIn.Environment
-	if idsMatch && envsMatch {
+	if v.isSameVariableAs(vIn) {
 		return seIn
 	} else {
 		return v
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..1c98333 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -429,7 +429,7 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 	// corresponding element in the output matrix to 1.
 	for ii, vmRow := range vm {
 		for jj, vmElt := range vmRow {
-			if vmElt.ID == v.ID {
+			if vmElt.isSameVariableAs(v) {
 				kmOut[ii][jj] = K(1)
 			}
 		}
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..44595a9 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -363,7 +363,7 @@ func (vv VariableVector) DerivativeWrt(vIn Variable) Expression {
 
 	// Algorithm
 	for ii, element := range vv {
-		if element.ID == vIn.ID {
+		if element.isSameVariableAs(vIn) {
 			vecOut.SetVec(ii, 1)
 		}
 	}
-- 
2.43.0


From d7889bb4a941558e0a8c8286213074ebbb3df959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 08/36] fix: SubstituteAccordingTo of vectors and matrices
 replaces all variables simultaneously

---
 symbolic/matrix_expression.go | 16 ++++++++++++++++
 symbolic/monomial_matrix.go   |  9 ++-------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go | 10 ++--------
 symbolic/polynomial_vector.go | 10 ++--------
 symbolic/variable_matrix.go   | 10 ++--------
 symbolic/variable_vector.go   | 11 ++---------
 symbolic/vector_expression.go | 12 ++++++++++++
 8 files changed, 40 insertions(+), 47 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..c134819 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -486,3 +486,19 @@ func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 		)
 	}
 }
+
+// MatrixSubstituteAccordingToTemplate substitutes, in every entry of the matrix expression me, all of the
+// variables in the map with the corresponding expressions.
+func MatrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			newElt := me.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, newElt.(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+
+	return ConcretizeMatrixExpression(out)
+}
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..d4c0ecf 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -582,13 +582,8 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 		panic(err)
 	}
 
-	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return MatrixSubstituteAccordingToTemplate(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..55cf252 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -511,13 +511,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return VectorSubstituteAccordingToTemplate(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 767963f..83af1fc 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -589,14 +589,8 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 		panic(err)
 	}
 
-	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return MatrixSubstituteAccordingToTemplate(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 49d9b36..f6704af 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -510,14 +510,8 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 		panic(err)
 	}
 
-	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return VectorSubstituteAccordingToTemplate(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 1c98333..52f03ab 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -581,14 +581,8 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return MatrixSubstituteAccordingToTemplate(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 44595a9..22be125 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -475,15 +475,8 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	// Algorithm (all variables are replaced simultaneously, entry by entry)
+	return VectorSubstituteAccordingToTemplate(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..3e3ffd6 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -414,3 +414,15 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 
 	return ConcretizeExpression(sum)
 }
+
+// VectorSubstituteAccordingToTemplate substitutes, in every entry of the vector expression ve, all of the
+// variables in the map with the corresponding expressions.
+func VectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		postSub := ve.AtVec(ii).SubstituteAccordingTo(subMap)
+		result = append(result, postSub.(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
-- 
2.43.0


From 14e63b3149a206cc9ab7c414471bd48beaf1db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 09/36] fix: ScalarConstraint.AsSimplifiedConstraint moves
 constants of the left hand side to the right

---
 symbolic/scalar_constraint.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..967a187 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -243,7 +243,18 @@ func (sc ScalarConstraint) String() string {
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (sc ScalarConstraint) AsSimplifiedConstraint() Constraint {
-	return sc.Simplify()
+	// Move all variables to the left hand side
+	simplified := sc.Simplify()
+
+	// Move the constant of the left hand side to the right hand side
+	newLHS := simplified.LeftHandSide.AsSimplifiedExpression().(ScalarExpression)
+	constant := newLHS.Constant()
+
+	return ScalarConstraint{
+		LeftHandSide:  newLHS.Plus(-constant).(ScalarExpression),
+		RightHandSide: K(simplified.RightHandSide.Constant() - constant),
+		Sense:         simplified.Sense,
+	}
 }
 
 // Variables returns all variables appearing in the scalar constraint.
@@ -299,11 +310,11 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	}
 
 	// Simplify both constraints
-	sc = sc.Simplify()
+	sc = sc.AsSimplifiedConstraint().(ScalarConstraint)
 
 	switch otherC := other.(type) {
 	case ScalarConstraint:
-		otherC = otherC.Simplify()
+		otherC = otherC.AsSimplifiedConstraint().(ScalarConstraint)
 
 		// Naive implication check:
 		// 1. Both constraints contain only 1 variable AND it is the same variable. Then, simply check the bounds.
-- 
2.43.0


From ea7fca5442c886b6f4b4e372ece0490911ce8edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 10/36] fix: ImpliesThisIsAlsoSatisfied does not treat
 nonlinear constraints as bounds

---
 symbolic/scalar_constraint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 967a187..346a5b0 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -321,7 +321,10 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		containsOneVar := len(sc.Variables()) == 1 && len(otherC.Variables()) == 1
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
 
-		if containsOneVar && scAndOtherShareSameVar {
+		// 2. Both constraints are linear. (The bounds of nonlinear constraints can not be compared in this way.)
+		bothAreLinear := sc.IsLinear() && otherC.IsLinear()
+
+		if containsOneVar && scAndOtherShareSameVar && bothAreLinear {
 			// Get the coefficient of the single variable
 			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
 			scCoeff := scCoeffVector.AtVec(0)
-- 
2.43.0


From 143c72960644224c34a1905f3955ac4b8daf3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 11/36] fix: ImpliesThisIsAlsoSatisfied compares correctly
 rounded bounds

---
 symbolic/scalar_constraint.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 346a5b0..f0572a6 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -331,6 +331,11 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 			otherCCoeffVector := otherC.LeftHandSide.LinearCoeff(otherC.Variables())
 			otherCCoeff := otherCCoeffVector.AtVec(0)
 
+			// Compute the bounds on the variable
+			// (dividing directly, as multiplying with 1.0/coefficient does not always give the rounded quotient)
+			scBound := sc.RightHandSide.Constant() / scCoeff
+			otherCBound := otherC.RightHandSide.Constant() / otherCCoeff
+
 			// Scale both constraints
 			// Note: If the coefficient is negative, then the sense of the constraint will be flipped.
 			// This is handled in the ScaleBy method.
@@ -355,7 +360,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseLessThanEqual:
 					// Both are <=
 					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				default:
 					// sc is <= and otherC is either >= or ==
 					// Then the implication holds if the upper bound of sc is <= the lower bound of otherC
@@ -367,7 +372,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseGreaterThanEqual:
 					// Both are >=
 					// Then the implication holds if the lower bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				default:
 					// sc is >= and otherC is either <= or ==
 					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
@@ -379,15 +384,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseEqual:
 					// Both are ==
 					// Then the implication holds if the bounds are equal
-					return sc.RightHandSide.Constant() == otherC.RightHandSide.Constant()
+					return scBound == otherCBound
 				case SenseLessThanEqual:
 					// sc is == and otherC is <=
 					// Then the implication holds if the bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				case SenseGreaterThanEqual:
 					// sc is == and otherC is >=
 					// Then the implication holds if the bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				}
 			default:
 				panic("unreachable code reached in ScalarConstraint.ImpliesThisIsAlsoSatisfied")
-- 
2.43.0


From 28324811fc0bed9e53005b665e8e312e690987a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 12/36] fix: scalar equality constraints have no linear
 inequality representation

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index f0572a6..22a0bd9 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From 4264b68c2f7a3f1acf8a6ff37a2ad196e8ae125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 13/36] fix: new variables never receive an ID that is already
 tracked

---
 symbolic/variable.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 8c84fcb..e4db60c 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -398,11 +398,11 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
@@ -417,6 +417,22 @@ func NewContinuousVariable(envs ...Environment) Variable {
 
 }
 
+// nextVariableID returns an ID that none of the variables tracked by the environment has.
+// Usually, this is the number of tracked variables. (Variables with other IDs may be tracked
+// as well, as the IDs of variables passed to TrackVariable are chosen by the caller.)
+func nextVariableID(env Environment) uint64 {
+	usedIDs := make(map[uint64]bool)
+	for _, v := range env.AllTrackedVariables() {
+		usedIDs[v.ID] = true
+	}
+
+	nextID := uint64(len(usedIDs))
+	for usedIDs[nextID] {
+		nextID++
+	}
+	return nextID
+}
+
 // NewBinaryVariable creates a new binary variable.
 func NewBinaryVariable(envs ...Environment) Variable {
 	// Constants
@@ -429,11 +445,11 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableID(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-- 
2.43.0


From 3850d3280dab68a875b13f787767d8c330c7ed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 14/36] fix: VariableMatrix.Plus accepts constant matrices with
 zero entries

---
 symbolic/variable_matrix.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 52f03ab..333efbd 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,16 +138,17 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
-		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
+		// Create a new matrix of the sums.
+		// (When zero is added to a variable, the sum is not a polynomial but the variable.)
+		var sum [][]ScalarExpression
 		for ii, vmRow := range vm {
-			var pmRow []Polynomial
+			var sumRow []ScalarExpression
 			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
+				sumRow = append(sumRow, v.Plus(right[ii][jj]).(ScalarExpression))
 			}
-			pmOut = append(pmOut, pmRow)
+			sum = append(sum, sumRow)
 		}
-		return pmOut
+		return ConcretizeMatrixExpression(sum)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From e10993136ec9e6826e1e752613388b4348e59b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 15/36] fix: VariableMatrix.Multiply accepts the constants 0
 and 1

---
 symbolic/variable_matrix.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 333efbd..7c1dc97 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -243,16 +243,17 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use K case
 		out = vm.Multiply(K(right))
 	case K:
-		// Create a new matrix of polynomials.
-		var mmOut MonomialMatrix
+		// Create a new matrix of the products.
+		// (When the factor is 0 or 1, the products are not monomials but constants or variables.)
+		var product [][]ScalarExpression
 		for _, vmRow := range vm {
-			var mmRow []Monomial
+			var productRow []ScalarExpression
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				productRow = append(productRow, v.Multiply(right).(ScalarExpression))
 			}
-			mmOut = append(mmOut, mmRow)
+			product = append(product, productRow)
 		}
-		out = mmOut
+		out = ConcretizeMatrixExpression(product)
 	case KVector:
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
-- 
2.43.0


From 44570b0cb26a9b439fba8a16eb3e504bb89bc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 16/36] fix: MonomialMatrix.Plus keeps the simplified entries

---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4c0ecf..ff81f04 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -127,7 +127,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -141,7 +141,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -156,7 +156,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -173,7 +173,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -188,7 +188,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0


From c631437c12824ab6fa46922ec759f9693a01e846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 17/36] fix: MonomialMatrix.Multiply accepts rows whose product
 with a vector is not a polynomial

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index ff81f04..e066d85 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -298,7 +298,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From 74e526050f4be1c2d92544c1fe99008fd3680f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 18/36] fix: vectors and matrices with one entry are not
 combined with arrays of other shapes

---
 smErrors/matrix_dimension_error.go | 16 ++++++++--------
 smErrors/matrix_like.go            | 15 +++++++++++++++
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/smErrors/matrix_dimension_error.go b/smErrors/matrix_dimension_error.go
index 024a874..70f8ef3 100644
--- a/smErrors/matrix_dimension_error.go
+++ b/smErrors/matrix_dimension_error.go
@@ -59,8 +59,8 @@ func (de MatrixDimensionError) ArgDimsAsStrings() []string {
 func CheckDimensionsInAddition(left, right MatrixLike) error {
 	// Check that the size of columns in left and right agree
 	dimsAreMatched := (left.Dims()[0] == right.Dims()[0]) && (left.Dims()[1] == right.Dims()[1])
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(left)
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(right)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(left)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(right)
 
 	if !dimsAreMatched {
 		return MatrixDimensionError{
@@ -82,8 +82,8 @@ Description:
 func CheckDimensionsInSubtraction(left, right MatrixLike) error {
 	// Check that the size of columns in left and right agree
 	dimsAreMatched := (left.Dims()[0] == right.Dims()[0]) && (left.Dims()[1] == right.Dims()[1])
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(left)
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(right)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(left)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(right)
 
 	if !dimsAreMatched {
 		return MatrixDimensionError{
@@ -111,8 +111,8 @@ func CheckDimensionsInMultiplication(left, right MatrixLike) error {
 	dimsMatch := left.Dims()[1] == right.Dims()[0]
 
 	// Check that one of the expressions is a scalar
-	leftIsScalar := IsScalarExpression(left)
-	rightIsScalar := IsScalarExpression(right)
+	leftIsScalar := isScalarNotArray(left)
+	rightIsScalar := isScalarNotArray(right)
 
 	multiplicationIsAllowed := dimsMatch || leftIsScalar || rightIsScalar
 
@@ -199,8 +199,8 @@ func CheckDimensionsInVStack(sliceToStack ...MatrixLike) error {
 
 func CheckDimensionsInComparison(arg1, arg2 MatrixLike, comparisonType string) error {
 	dimsAreMatched := (arg1.Dims()[0] == arg2.Dims()[0]) && (arg1.Dims()[1] == arg2.Dims()[1])
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(arg1)
-	dimsAreMatched = dimsAreMatched || IsScalarExpression(arg2)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(arg1)
+	dimsAreMatched = dimsAreMatched || isScalarNotArray(arg2)
 
 	if !dimsAreMatched {
 		// Return a specific type of error based on if this was a vector comparison
diff --git a/smErrors/matrix_like.go b/smErrors/matrix_like.go
index 1ef0b43..d202c6b 100644
--- a/smErrors/matrix_like.go
+++ b/smErrors/matrix_like.go
@@ -15,3 +15,18 @@ func IsScalarExpression(e MatrixLike) bool {
 
 	return (nRows == 1) && (nCols == 1)
 }
+
+/*
+isScalarNotArray
+Description:
+
+	Determines whether or not an input object is a scalar that can be combined with arrays of any shape.
+	Vectors and matrices with a single entry are not: they can only be combined with arrays
+	whose shape matches theirs.
+*/
+func isScalarNotArray(e MatrixLike) bool {
+	// The constant of a scalar expression is a number (that of an array is an array)
+	_, hasScalarConstant := e.(interface{ Constant() float64 })
+
+	return hasScalarConstant && IsScalarExpression(e)
+}
-- 
2.43.0


From b7be8ff166720bf082913e83bdb93bea7d40a427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 19/36] fix: powers of 1 x 1 matrices

---
 symbolic/matrix_expression.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index c134819..2663fef 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -164,7 +164,8 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-		out = out.Multiply(me).(MatrixExpression)
+		// The product of 1 x 1 matrices is a scalar
+		out = toMatrixWithSameEntries(out.Multiply(me))
 	}
 	return out
 }
@@ -502,3 +503,21 @@ func MatrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variabl
 
 	return ConcretizeMatrixExpression(out)
 }
+
+// toMatrixWithSameEntries returns the matrix expression which has the same shape and the same entries as e.
+// (Operations on matrices with a single column return vectors or scalars.)
+func toMatrixWithSameEntries(e Expression) MatrixExpression {
+	if me, tf := e.(MatrixExpression); tf {
+		return me
+	}
+
+	var entries [][]ScalarExpression
+	for ii := 0; ii < e.Dims()[0]; ii++ {
+		var row []ScalarExpression
+		for jj := 0; jj < e.Dims()[1]; jj++ {
+			row = append(row, e.At(ii, jj))
+		}
+		entries = append(entries, row)
+	}
+	return ConcretizeMatrixExpression(entries)
+}
-- 
2.43.0


From 03414851df98b2fe26e7551bf9a10c1591f55f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:27 +0000
Subject: [PATCH 20/36] fix: MatrixConstraint.AsSimplifiedConstraint accepts
 constraints with a single column

---
 symbolic/matrix_constraint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..ee11f1d 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -170,8 +170,8 @@ func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  toMatrixWithSameEntries(newLHS),
+		RightHandSide: toMatrixWithSameEntries(newRHS),
 		Sense:         mc.Sense,
 	}
 }
-- 
2.43.0


From c2e2c21565eaf7ace93cd176d14e0b2497511420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 21/36] fix: vector constraints of length 1 can be simplified
 and represented

---
 symbolic/vector_constraint.go | 12 ++++++------
 symbolic/vector_expression.go | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..ccc5e6d 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -140,8 +140,8 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = toVectorWithSameEntries(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = toVectorWithSameEntries(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -205,8 +205,8 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = toVectorWithSameEntries(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = toVectorWithSameEntries(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	C = newLHS.LinearCoeff(wrt...)
 
@@ -287,8 +287,8 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  toVectorWithSameEntries(newLHS),
+		RightHandSide: toVectorWithSameEntries(newRHS),
 		Sense:         vc.Sense,
 	}
 }
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 3e3ffd6..3aec9b1 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -426,3 +426,17 @@ func VectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variabl
 
 	return ConcretizeVectorExpression(result)
 }
+
+// toVectorWithSameEntries returns the vector expression which has the same shape and the same entries as
+// the vector or scalar expression e. (Operations on vectors of length 1 return scalars.)
+func toVectorWithSameEntries(e Expression) VectorExpression {
+	if ve, tf := e.(VectorExpression); tf {
+		return ve
+	}
+
+	var entries []ScalarExpression
+	for ii := 0; ii < e.Dims()[0]; ii++ {
+		entries = append(entries, e.At(ii, 0))
+	}
+	return ConcretizeVectorExpression(entries)
+}
-- 
2.43.0


From 9e1ec894afa64c526233f244639ed40df27f1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 22/36] fix: Check reports matrices that have no columns

---
 symbolic/monomial_matrix.go   | 2 +-
 symbolic/polynomial_matrix.go | 2 +-
 symbolic/variable_matrix.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index e066d85..178c4c4 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -31,7 +31,7 @@ type MonomialMatrix [][]Monomial
 // - Each of the monomials in the matrix are valid.
 func (mm MonomialMatrix) Check() error {
 	// Check that the matrix has at least one row
-	if len(mm) == 0 {
+	if len(mm) == 0 || len(mm[0]) == 0 {
 		return smErrors.EmptyMatrixError{Expression: mm}
 	}
 
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 83af1fc..2641be6 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -31,7 +31,7 @@ type PolynomialMatrix [][]Polynomial
 // - Each of the polynomials in the matrix are valid.
 func (pm PolynomialMatrix) Check() error {
 	// Check that the matrix has at least one row
-	if len(pm) == 0 {
+	if len(pm) == 0 || len(pm[0]) == 0 {
 		return smErrors.EmptyMatrixError{Expression: pm}
 	}
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 7c1dc97..3c4b95e 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -34,7 +34,7 @@ func (vm VariableMatrix) Check() error {
 	// Input Processing
 
 	// Check to see if the matrix is empty
-	if len(vm) == 0 {
+	if len(vm) == 0 || len(vm[0]) == 0 {
 		return smErrors.EmptyMatrixError{
 			Expression: vm,
 		}
-- 
2.43.0


From d5922b9f0f3d0277068db58021e579fe0bf594eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 23/36] fix: KMatrix.Check reports empty and ragged matrices

---
 symbolic/constant_matrix.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..4d242a9 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -14,6 +14,24 @@ type KMatrix [][]K
 // ConstantMatrix objects are always initialized properly, so this should always return
 // no error.
 func (km KMatrix) Check() error {
+	// Check that the matrix has at least one entry
+	if len(km) == 0 || len(km[0]) == 0 {
+		return smErrors.EmptyMatrixError{Expression: km}
+	}
+
+	// Check that the number of columns is the same in each row
+	numColumns := len(km[0])
+	for ii, row := range km {
+		if len(row) != numColumns {
+			return smErrors.MatrixColumnMismatchError{
+				ExpectedNColumns: numColumns,
+				ActualNColumns:   len(row),
+				Row:              ii,
+			}
+		}
+	}
+
+	// All checks passed
 	return nil
 }
 
-- 
2.43.0


From f35b3bd839dc1793b70c5b10659dcb3da02d4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 24/36] fix: KVector.Check and VariableVector.Check report
 empty vectors

---
 symbolic/constant_vector.go | 5 +++++
 symbolic/variable_vector.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..316f353 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -24,6 +24,11 @@ func (kv KVector) Len() int {
 // Check This method is used to make sure that the variable is well-defined.
 // For a constant vector, the slice should always be well-defined. This always returns no errors.
 func (kv KVector) Check() error {
+	// Check that the vector has at least one entry
+	if len(kv) == 0 {
+		return smErrors.EmptyVectorError{Expression: kv}
+	}
+
 	return nil
 }
 
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 22be125..d14fa22 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -327,6 +327,11 @@ func (vv VariableVector) Dims() []int {
 
 // Check Checks whether or not the VariableVector has a sensible initialization.
 func (vv VariableVector) Check() error {
+	// Check that the vector has at least one entry
+	if len(vv) == 0 {
+		return smErrors.EmptyVectorError{Expression: vv}
+	}
+
 	// Check that each variable is properly defined
 	for ii, element := range vv {
 		err := element.Check()
-- 
2.43.0


From 3ee531ceb5b3bac6375dbd2b210f6a634499cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 25/36] fix: ScalarConstraint.Simplify refuses malformed
 constraints

---
 symbolic/scalar_constraint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 22a0bd9..405c9b6 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -35,6 +35,12 @@ func (sc ScalarConstraint) IsLinear() bool {
 // Simplify Moves all of the variables of the ScalarConstraint to its
 // left hand side.
 func (sc ScalarConstraint) Simplify() ScalarConstraint {
+	// Check that the constraint is well formed.
+	err := sc.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Create LHS
 	newLHS := sc.LeftHandSide
 
-- 
2.43.0


From 63a2741c6274aec2c07622b0e49fdb0f50d3026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 26/36] fix: Variable.Plus refuses malformed operands

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index e4db60c..bc9c370 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -83,6 +83,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err := rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From 1fbe573b7ae7815ca6de3cf8210d12c80a3bb594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 27/36] fix: CompileConstraintsIntoScalarConstraints refuses
 malformed constraints

---
 symbolic/constraint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..e12442c 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -89,6 +89,12 @@ func CompileConstraintsIntoScalarConstraints(constraints []Constraint) []ScalarC
 
 	// Iterate through all constraints
 	for _, constraint := range constraints {
+		// Check that the constraint is well formed
+		err := constraint.Check()
+		if err != nil {
+			panic(err)
+		}
+
 		// Switch statement based on the type of the constraint
 		switch concreteConstraint := constraint.(type) {
 		case ScalarConstraint:
-- 
2.43.0


From eaa269ebfca5cf28b11bc272c2ba600846bf21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:11 +0000
Subject: [PATCH 28/36] fix: Monomial.ToVariable refuses monomials whose
 coefficient is not 1

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 3fc0f21..06864c2 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -572,7 +572,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.IsVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From cfa956670fd3d9876d3b2beee76b5aaab88c936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 29/36] fix: MatrixConstraint.AsSimplifiedConstraint refuses
 malformed constraints

---
 symbolic/matrix_constraint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index ee11f1d..6672b9a 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -157,6 +157,12 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
+	// Input Checking
+	err := mc.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Create Left Hand side of all of the expressions
 	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
 	newLHS = newLHS.Minus(
-- 
2.43.0


From b723e00ceb2420504649f15d6294dd4ebaecc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 30/36] fix: constant and linear coefficients of polynomials
 that are not simplified

---
 symbolic/polynomial.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 8cc25c6..ad51dce 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,12 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// (A polynomial that is not simplified may contain several constant monomials.)
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		constant += monomial.Constant()
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -653,11 +653,15 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Collect all the monomials that are linear in the variable
+		// (There may be several of them in a polynomial that is not simplified.)
+		coeff := 0.0
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeff += monomial.Coefficient
+			}
 		}
+		coeffOut.SetVec(ii, coeff)
 	}
 
 	return coeffOut
-- 
2.43.0


From 9e995bc633fa1cabf3d6811f651104e547856466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 31/36] fix: describe KVector.Check

---
 symbolic/constant_vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 316f353..e19c710 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -22,7 +22,7 @@ func (kv KVector) Len() int {
 }
 
 // Check This method is used to make sure that the variable is well-defined.
-// For a constant vector, the slice should always be well-defined. This always returns no errors.
+// A constant vector is well-defined if it has at least one entry.
 func (kv KVector) Check() error {
 	// Check that the vector has at least one entry
 	if len(kv) == 0 {
-- 
2.43.0


From e64f72d3e861080e8683f719db2e8680e6a6e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 32/36] fix: KMatrix.String opens every row once

---
 symbolic/constant_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 4d242a9..ac47158 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -513,7 +513,7 @@ func (km KMatrix) String() string {
 		// Add "]," and newline if not last row
 		out += "]"
 		if ii != nR-1 {
-			out += ",\n ["
+			out += ",\n "
 		} else {
 			out += "]\n"
 		}
-- 
2.43.0


From 68d13dcad01afca4e647126f81e153ec4fb22f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:08 +0000
Subject: [PATCH 33/36] fix: MonomialMatrix.String separates rows by one comma

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 178c4c4..09264a2 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -530,7 +530,7 @@ func (mm MonomialMatrix) String() string {
 				out += ", "
 			}
 		}
-		out += "],"
+		out += "]"
 		if ii != len(mm)-1 {
 			out += ",\n "
 		}
-- 
2.43.0


From e5ab26e7696b1f1d3e0e054b1f98a228a008cbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 34/36] fix: PolynomialMatrix.Plus accepts the kinds that
 subtraction of polynomials produces

---
 symbolic/polynomial_matrix.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 2641be6..6f9314f 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -132,6 +132,8 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 			sum = append(sum, sumRow)
 		}
 		out = ConcretizeExpression(sum)
+	case Variable:
+		out = pm.Plus(right.ToPolynomial())
 	case Monomial:
 		out = pm.Plus(right.ToPolynomial())
 	case Polynomial:
@@ -159,6 +161,21 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(sum)
 
+	case VariableMatrix:
+		out = pm.Plus(right.ToPolynomialMatrix())
+	case MonomialMatrix:
+		// Create containers
+		var sum [][]ScalarExpression
+
+		for ii, row := range pm {
+			var sumRow []ScalarExpression
+			for jj, polynomial := range row {
+				sumRow = append(sumRow, polynomial.Plus(right[ii][jj]).(ScalarExpression))
+			}
+			sum = append(sum, sumRow)
+		}
+
+		out = ConcretizeExpression(sum)
 	case PolynomialMatrix:
 		// Create containers
 		var sum [][]ScalarExpression
-- 
2.43.0


From fa317b6fc99ebb77e5de0972dc18c922dcdb9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:05 +0000
Subject: [PATCH 35/36] fix: subtraction and simplification do not fail on sums
 of matrices of different kinds

---
 symbolic/monomial_matrix.go | 3 +++
 symbolic/variable_matrix.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 09264a2..f14cb4e 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -195,6 +195,9 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 
 		return sum
 
+	case MatrixExpression:
+		return MatrixPlusTemplate(mm, right)
+
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 3c4b95e..171f2db 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -149,6 +149,9 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 			sum = append(sum, sumRow)
 		}
 		return ConcretizeMatrixExpression(sum)
+
+	case MatrixExpression:
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From 7625c9be919ce0d56fb509bc4fbf56d100ad34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:59 +0000
Subject: [PATCH 36/36] fix: an index outside of a KMatrix, VariableMatrix,
 MonomialMatrix or MonomialVector is reported as out of bounds

---
 symbolic/constant_matrix.go | 7 +++++++
 symbolic/monomial_matrix.go | 6 ++++++
 symbolic/monomial_vector.go | 6 ++++++
 symbolic/variable_matrix.go | 6 ++++++
 4 files changed, 25 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index ac47158..ad93ccf 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -439,6 +439,13 @@ func (km KMatrix) Comparison(rightIn interface{}, sense ConstrSense) Constraint
 // At Retrieves element at the specified indices.
 func (km KMatrix) At(i, j int) ScalarExpression {
 	kmAsD := km.ToDense()
+
+	// Check to see whether or not the index is valid.
+	err := smErrors.CheckIndexOnMatrix(i, j, km)
+	if err != nil {
+		panic(err)
+	}
+
 	return K(kmAsD.At(i, j))
 }
 
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index f14cb4e..a9d2037 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -486,6 +486,12 @@ func (mm MonomialMatrix) At(ii, jj int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check to see whether or not the index is valid.
+	err = smErrors.CheckIndexOnMatrix(ii, jj, mm)
+	if err != nil {
+		panic(err)
+	}
+
 	// Return the value
 	return mm[ii][jj]
 }
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 55cf252..6a18052 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -410,6 +410,12 @@ func (mv MonomialVector) AtVec(idx int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check to see whether or not the index is valid.
+	err = smErrors.CheckIndexOnVector(idx, mv)
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	return mv[idx]
 }
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 171f2db..34aacf0 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -451,6 +451,12 @@ func (vm VariableMatrix) At(ii, jj int) ScalarExpression {
 		panic(err)
 	}
 
+	// Check to see whether or not the index is valid.
+	err = smErrors.CheckIndexOnMatrix(ii, jj, vm)
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	return vm[ii][jj]
 }
-- 
2.43.0

