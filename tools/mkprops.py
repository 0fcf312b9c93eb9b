#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "symbolic/"
SCAL = [S+"constant.go", S+"variable.go", S+"monomial.go", S+"polynomial.go", S+"scalar_expression.go"]
VEC = [S+"constant_vector.go", S+"variable_vector.go", S+"monomial_vector.go", S+"polynomial_vector.go", S+"vector_expression.go"]
MAT = [S+"constant_matrix.go", S+"variable_matrix.go", S+"monomial_matrix.go", S+"polynomial_matrix.go", S+"matrix_expression.go"]
CON = [S+"constraint.go", S+"constr_sense.go", S+"scalar_constraint.go", S+"vector_constraint.go", S+"matrix_constraint.go"]
ENV = [S+"environment.go", S+"basic_environment.go", S+"variable.go", S+"variable_vector.go", S+"variable_matrix.go"]
LIKE = [S+"polynomial_like.go", S+"polynomial_like_scalar.go", S+"polynomial_like_vector.go", S+"polynomial_like_matrix.go"]

prop("C01", "Operations never modify expressions or constraints the caller holds",
 "Every operation on expressions and constraints is pure: whatever sequence of operations is performed, each expression, constraint or variable list obtained earlier still has exactly the terms, coefficients, exponents, shape and variables it had. The same operation repeated on the same operands therefore always gives an equal value. Changing an explicit copy (of a monomial, a polynomial or a vector of variables) never changes what it was copied from.",
 ["histories", "programs"], "over every finite sequence of public calls on any values built so far, including values sharing factors or storage",
 "Tests look at the returned value once; an operation that writes through a shared slice shows only when an older value is looked at again later in some history.",
 SCAL+VEC+MAT+CON,
 [("value receivers and explicit copies", S+"monomial.go Copy, "+S+"polynomial.go Copy, "+S+"variable_vector.go Copy"),
  ("results built in fresh slices", S+"monomial.go Multiply/DerivativeWrt, "+S+"polynomial.go Plus/Multiply/Simplify, "+S+"polynomial_vector.go DerivativeWrt")],
 ["field contents of every value held, after every call"],
 [("heap of values", "the values the caller has built so far", "user-held Expression/Constraint values and the slices they contain")])

prop("C02", "Scalar arithmetic is exact polynomial arithmetic",
 "The sum, difference, product and non-negative integer power of scalar expressions denote exactly the corresponding polynomial, for every pair of scalar kinds the library accepts (numbers, constants, variables, monomials, polynomials). The result does not depend on the order in which terms are listed, on the order of factors inside a monomial, or on which operand is on which side.",
 ["inputs", "programs"], "over all scalar operands of every kind, every ordering of their terms and factors, all exponents, and all compositions of these operations",
 "Tests check a few fixed sums and products, mostly by counting the terms of the result; like-term merging and cancellation depend on coefficients, factor order and term order they never vary.",
 SCAL+[S+"expression.go"],
 [("like-term merging", S+"monomial.go MatchesFormOf, "+S+"polynomial.go MonomialIndex/Plus/Simplify"),
  ("dispatch over operand kinds", "Plus/Minus/Multiply/Power of each scalar kind")],
 ["denotation of every result as a map from exponent vectors to coefficients"])

prop("C03", "Vector and matrix arithmetic is exact, entry by entry",
 "Sums, differences, scalar multiples, matrix products and non-negative integer powers of vectors and matrices denote exactly the mathematical result entry by entry, for every pair of kinds the library accepts, including plain numbers and dense numeric vectors and matrices. Adding or multiplying by a scalar acts on every entry.",
 ["inputs", "programs"], "over all accepted kind pairs, shapes (row, column, square, rectangular, 1x1), entry values and compositions",
 "Tests sample one or two shapes per kind pair and rarely compare all entries; index slips, skipped rows and value-dependent failures (0, 1, cancelling entries) need other shapes and values.",
 VEC+MAT+[S+"expression.go"],
 [("entrywise templates", S+"vector_expression.go VectorPlusTemplate/VectorMultiplyTemplate, "+S+"matrix_expression.go MatrixPlusTemplate/MatrixMultiplyTemplate/MatrixPowerTemplate"),
  ("per-kind methods", "Plus/Minus/Multiply/Power in *_vector.go and *_matrix.go")],
 ["denotation of every entry of every result"])

prop("C04", "Shapes follow linear algebra; incompatible requests are rejected",
 "Every result has the shape linear algebra prescribes for the operation. A request whose shapes are incompatible (sums of different shapes, products with mismatched inner dimensions, powers of non-square arrays, comparisons or stacks of mismatched arrays), an index out of range, an empty stack or a negative exponent is always refused, never answered with a truncated or padded value.",
 ["inputs", "programs"], "over all operations, operand kinds and shapes from 1x1 upwards, valid and invalid indices and exponents",
 "Tests check one mismatch per method; whether every combination of kinds and shapes is either right or refused is a universal statement, and silent truncation only shows for particular pairs (such as a 1x1 array with a longer one).",
 ["smErrors/matrix_dimension_error.go", "smErrors/out_of_bounds_error.go", S+"expression.go"]+VEC+MAT+CON,
 [("dimension checks", "smErrors/matrix_dimension_error.go, "+S+"utils.go CheckDimensionsInComparison"),
  ("index checks", "smErrors/out_of_bounds_error.go CheckIndexOnMatrix/CheckIndexOnVector")],
 ["Dims()/Len() of results; panic or not"])

prop("C05", "Differentiation is exact",
 "The derivative of any expression with respect to a variable is exactly its partial derivative, entry by entry and with the same shape, for scalars, vectors and matrices; differentiating by a variable that does not occur gives zero. Mixed partial derivatives agree in either order.",
 ["inputs", "programs"], "over all kinds, exponents, factor orders, repeated differentiation and all variables",
 "Tests differentiate a handful of low-degree expressions once; the result depends on exponents, on where in the term the variable stands, and on entries becoming constant.",
 SCAL+VEC+MAT,
 [("product/power rule on monomials", S+"monomial.go DerivativeWrt"), ("sum rule", S+"polynomial.go DerivativeWrt"), ("entrywise rule", "DerivativeWrt in *_vector.go and *_matrix.go")],
 ["denotation of the derivative"])

prop("C06", "Substituting one variable replaces exactly that variable",
 "Substituting a scalar expression for a variable gives the expression in which every occurrence of that variable, at whatever power, is replaced by the given expression, and every other variable and all coefficients are untouched; shapes are preserved. Substituting for a variable that does not occur changes nothing, also when the replacement mentions the variable itself.",
 ["inputs", "programs"], "over all kinds of expression and of replacement, exponents, replacements mentioning the variable itself, and compositions",
 "Tests substitute into small expressions with one or two factors; wrong powers, lost coefficients or touched neighbours depend on factor position and exponents.",
 SCAL+VEC+MAT,
 [("term-by-term substitution", S+"monomial.go Substitute, "+S+"polynomial.go Substitute"), ("entrywise templates", S+"vector_expression.go VectorSubstituteTemplate, "+S+"matrix_expression.go MatrixSubstituteTemplate")],
 ["denotation of the result"])

prop("C07", "Substitution maps act on all variables simultaneously",
 "Substituting according to a map replaces all its variables at the same time: replacements are not substituted into again, so swaps and cycles work, and the result never depends on iteration order. Variables not in the map stay. For expressions that can contain variables, a map entry that is not a scalar expression, or is malformed, is refused.",
 ["inputs", "programs"], "over all maps (including swaps, cycles and replacements mentioning other keys), all kinds of expressions and constraints, and all map iteration orders",
 "Tests use maps whose replacements are unrelated to the keys, for which sequential and simultaneous substitution agree, and observe one map iteration order.",
 SCAL+VEC+MAT+CON+[S+"utils.go"],
 [("map substitution per kind", "SubstituteAccordingTo of each kind"), ("map validation", S+"utils.go CheckSubstitutionMap")],
 ["denotation of the result, repeated runs"])

prop("C08", "Simplification keeps the value and reaches a canonical form",
 "Simplifying an expression never changes what it denotes or its shape. The simplified form of a scalar, and of every entry of an array, has no two like terms and no zero term next to others; a scalar's simplified form is a constant, a single variable or a single term when it is one.",
 ["inputs", "programs"], "over all expressions, with any order, repetition and cancellation of terms and factors",
 "Tests simplify a few hand-written sums; a term dropped or left unmerged depends on coefficients, positions and factor order.",
 SCAL+VEC+MAT,
 [("like-term merging", S+"polynomial.go Simplify, "+S+"monomial.go MatchesFormOf"), ("kind reduction", "AsSimplifiedExpression of each kind, "+S+"expression.go ConcretizeExpression")],
 ["terms and kind of the simplified value"])

prop("C09", "Structural queries tell the truth about the expression",
 "Degree, the set of variables, constant part, linear coefficients (in the requested or default variable order), and the questions whether an expression is constant, zero, linear or quadratic, a given variable or a given form, answer exactly what the polynomial it denotes dictates. Constant part and linear coefficients are exact for every well-formed expression; degree, variables and classification are exact for expressions without like or zero terms, and never miss a variable or understate the degree otherwise. Linear coefficients asked of an expression without variables, with no variable list given, are refused. Searching a list and removing duplicates from it answer for the elements it has.",
 ["inputs"], "over all expressions of all kinds and all variable lists, including variables that do not occur and any order",
 "Tests query a few expressions with the variables in natural order; wrong index mapping, missed variables or wrong degree need other orders, kinds and entries.",
 SCAL+VEC+MAT+LIKE,
 [("queries", "Degree/Variables/Constant/LinearCoeff/IsConstant/... of each kind"), ("classification", S+"expression.go IsLinear/IsQuadratic")],
 ["return values of the query methods"])

prop("C10", "Indexing, transposing and stacking put every entry in its place",
 "Entry access returns exactly the entry at the requested row and column; transposing moves entry (i,j) to (j,i); horizontal and vertical stacking and building vectors or matrices from scalars place every entry of every argument at its position, in order, for any mixture of kinds. Nothing is lost, duplicated or altered.",
 ["inputs", "programs"], "over all kinds and mixtures of kinds, shapes, positions and compositions (such as transposing a stack)",
 "Tests stack one or two shapes and check dimensions or a single entry; misplacement shows only for rectangular shapes and distinguishable entries.",
 [S+"expression.go"]+VEC+MAT+SCAL,
 [("stacking", S+"expression.go HStack/VStack"), ("assembly", S+"expression.go ConcretizeExpression, "+S+"vector_expression.go ConcretizeVectorExpression, "+S+"matrix_expression.go ConcretizeMatrixExpression"), ("indexing/transposing", "At/AtVec/Transpose of each kind")],
 ["every entry of the result"])

prop("C11", "Comparisons build exactly the constraint that was asked for",
 "Comparing two expressions yields a constraint whose left and right sides denote the operands in that order, with the requested sense and shape, a scalar side being applied to every entry. Extracting an entry, or compiling a list of constraints into scalar ones, yields for each entry exactly the scalar constraint of the corresponding entries, in order, with the same sense.",
 ["inputs", "programs"], "over all operand kinds, shapes, senses, entry positions and lists of constraints",
 "Tests build constraints from a few kinds and check their type; swapped sides, wrong sense, or wrong entries need distinguishable operands in every kind pair.",
 CON+SCAL+VEC+MAT,
 [("comparison methods", "Comparison/LessEq/GreaterEq/Eq of each kind"), ("entry extraction", S+"vector_constraint.go AtVec, "+S+"matrix_constraint.go At"), ("compilation", S+"constraint.go CompileConstraintsIntoScalarConstraints")],
 ["Left(), Right(), ConstrSense(), Dims() of constraints"])

prop("C12", "Rewriting a constraint preserves its solution set",
 "Simplifying a constraint and scaling it by a non-zero factor (which flips an inequality when the factor is negative) give a constraint satisfied by exactly the same points, entry by entry; after simplifying no variable is on the right, and the fully simplified form (AsSimplifiedConstraint) also has every constant on the right. Substituting in a constraint substitutes in both sides and keeps the sense.",
 ["inputs", "programs"], "over all constraints of every shape, senses, factors and substitutions",
 "Tests rewrite a few linear constraints with constants on one side; lost constants, unflipped senses or swapped sides need terms on both sides and negative factors.",
 CON,
 [("rewriting", S+"scalar_constraint.go Simplify/AsSimplifiedConstraint/ScaleBy/Substitute, "+S+"vector_constraint.go, "+S+"matrix_constraint.go")],
 ["left minus right, and sense, of the rewritten constraint"])

prop("C13", "Linear constraint representations are equivalent to the constraint",
 "For a linear inequality the returned coefficients A and bound b describe the same set of points in the form A*x <= b, and for a linear equality the returned C and d satisfy C*x = d on exactly the same points, with x in the requested variable order or, when none is requested, in some order of the constraint's variables. When variables are requested and some of the constraint are left out, this holds of the points where those are zero. A nonlinear constraint, or one of the wrong sense, is refused.",
 ["inputs"], "over all linear scalar and vector constraints, senses, constants and variables on both sides, and all orders of the requested variables",
 "Tests check a few systems with variables on the left and constants on the right; sign and order mistakes need variables on both sides, both senses and permuted variable lists.",
 [S+"scalar_constraint.go", S+"vector_constraint.go"]+SCAL+VEC,
 [("representation", S+"scalar_constraint.go and "+S+"vector_constraint.go LinearInequalityConstraintRepresentation/LinearEqualityConstraintRepresentation"), ("coefficients", "LinearCoeff/Constant of each kind")],
 ["returned A, b, C, d"])

prop("C14", "Constraint implication is never claimed falsely",
 "When the library reports that one constraint implies another, every point satisfying the first satisfies the second. Between two scalar linear bounds on the same single variable the answer is also complete: it reports the implication exactly when it holds.",
 ["inputs"], "over all pairs of constraints: senses, signs and sizes of coefficients, bounds, constants on either side, nonlinear constraints, different variables",
 "Tests try a handful of bounds on one variable with positive coefficients; soundness quantifies over all pairs of constraints and all points.",
 [S+"scalar_constraint.go", S+"vector_constraint.go", S+"matrix_constraint.go"],
 [("decision", S+"scalar_constraint.go ImpliesThisIsAlsoSatisfied"), ("entrywise decision", S+"vector_constraint.go and "+S+"matrix_constraint.go ImpliesThisIsAlsoSatisfied")],
 ["boolean answer, against the two solution sets"])

prop("C15", "Nonnegativity constraints are recognised exactly",
 "A scalar constraint is reported to be a nonnegativity constraint exactly when it is equivalent to requiring a single variable to be at least zero, whichever way round, with whatever positive or negative scaling, it is written. Constraints with a bound other than zero, the wrong direction, more variables or higher powers are never reported as such.",
 ["inputs"], "over all scalar constraints: sides exchanged, scalings of both signs, constants on either side, extra variables, powers",
 "Tests check a few written forms; the recogniser must be right on every form.",
 [S+"scalar_constraint.go"],
 [("recogniser", S+"scalar_constraint.go IsNonnegativityConstraint")],
 ["boolean answer"])

prop("C16", "Environments hand out fresh variables and track each exactly once",
 "Within an environment every newly created variable has an identifier no tracked variable has, with the requested kind and bounds, and is tracked from then on; tracking a variable succeeds exactly when its identifier is not yet tracked and changes nothing otherwise. Environments do not influence each other, and vectors and matrices of new variables consist of distinct variables of the requested environment and shape.",
 ["histories"], "over all interleaved histories of creating, tracking and listing in several environments, including variables with caller-chosen identifiers",
 "Tests create a few variables in one environment; collisions need particular histories mixing creation and tracking.",
 ENV,
 [("fresh identifiers", S+"variable.go NewContinuousVariable/NewBinaryVariable"), ("tracking", S+"basic_environment.go TrackVariable")],
 ["AllTrackedVariables, returned variables"],
 [("tracked variables", "the ordered list of variables of an environment", S+"basic_environment.go BasicEnvironment.Variables")])

prop("C17", "Distinct variables are never confused and keep their identity",
 "Variables that differ in identifier or in environment are never merged, cancelled, substituted, differentiated or reported as one another, even when identifiers or names coincide across environments. Results mention only variables of the operands (or of the replacements), with their identifier, name, bounds, kind and environment unchanged.",
 ["inputs", "programs"], "over all expressions mixing variables from several environments with coinciding identifiers or names, all operations and histories",
 "Tests use variables of one environment; conflation needs coinciding identifiers across environments in one expression.",
 SCAL+VEC+MAT+[S+"utils.go"],
 [("variable identity", S+"utils.go FindInSlice, "+S+"variable.go UniqueVars, ID comparisons in "+S+"variable.go, "+S+"monomial.go, "+S+"polynomial.go")],
 ["variables of every result, compared with those created"])

prop("C18", "Valid in, valid out; malformed operands are rejected",
 "Every expression or constraint the library returns for well-formed operands is itself well-formed: it passes its own validity check, its shape is consistent, and it can be used as an operand again. An expression that is malformed (a term whose exponents do not match its variables, a sum without terms, an empty or ragged array, a variable with empty bounds, or an array or constraint containing such a part) is reported by its validity check, and arithmetic, comparison, differentiation, substitution and simplification refuse it as receiver or operand rather than compute with it.",
 ["inputs", "programs"], "over all operations and compositions; over all malformations, at any entry of any kind, on either side of an operation",
 "Tests check one malformed value per method; closure is over all compositions, and detection over all positions of the defect.",
 SCAL+VEC+MAT+CON,
 [("validity checks", "Check of each kind"), ("guards", "Check calls at the start of each operation")],
 ["Check() of every result; panic on malformed operands"])

prop("C19", "Conversions between representations preserve value and are independent",
 "Converting between representations (constants, variables and monomials to monomials or polynomials and their vectors and matrices, numeric vectors and matrices to and from constants, lists of scalars, single-variable monomials to variables) preserves shape and every entry exactly. The converted numeric arrays are independent: changing one never changes the other. A conversion that cannot preserve the value, or is asked of a value of another kind or shape, is refused.",
 ["inputs", "programs"], "over all values and shapes of each convertible kind, then modification of either side",
 "Tests convert one or two fixed values; lost entries, transposed shapes or shared storage need other shapes and later modification.",
 SCAL+VEC+MAT+LIKE+["get/KMatrix/from.go", "get/KVector/from.go"],
 [("conversions", "ToMonomial*/ToPolynomial*/ToDense/ToVecDense/DenseToKMatrix/VecDenseToKVector/ToScalarExpressions/ToVariable, get/KMatrix/from.go, get/KVector/from.go, To*Expression, ToPolynomialLike*")],
 ["entries of the converted value"])

prop("C20", "The printed form denotes the expression",
 "The printed form of an expression or constraint, read with the usual rules for sums, products, powers and brackets, denotes exactly that expression (entry by entry) or constraint (left side, sense, right side). Printing succeeds for every well-formed value.",
 ["inputs"], "over all expressions of all kinds, shapes, coefficients, exponents and names",
 "Tests compare strings of a few expressions by substring; dropped coefficients, signs or separators depend on the values.",
 SCAL+VEC+MAT+CON,
 [("printing", "String of each kind")],
 ["String()"])

prop("C21", "Calls made at the same time answer as if made alone",
 "Expressions and constraints can be shared between goroutines: operations, queries, comparisons, rewriting and printing performed on the same values by several goroutines at the same time each give the answer they give when performed alone, never fail because of each other, and leave the shared values as they were. (Creating and tracking variables in one environment from several goroutines is not covered.)",
 ["schedules"], "over all sets of calls on shared values from several goroutines and all their interleavings",
 "Tests run in one goroutine; a shared scratch buffer, an unguarded cache, or an operand that is changed and restored during a call behaves perfectly there and fails only under particular interleavings.",
 SCAL+VEC+MAT+CON,
 [("no state besides the operands", "methods of every kind in "+S), ("operands only read", "value receivers; slices never written through")],
 ["answers of concurrent calls, against those of the same calls made alone"])

prop("C22", "A refusal names its true cause",
 "When the library refuses a call on well-formed operands because the shapes of the operands do not conform, an index lies outside of the value, an exponent is negative, a constraint is not linear or not of the sense required, or there are no variables to take coefficients for, it does so with the error value it has for that cause. Every such error value, and every error saying that an array is empty or has rows of different lengths, is true of the call: the cause is present, and the shapes (of the left and the right operand, of neighbours in a stack), index, exponent, row and numbers of columns in the value and in its message are those of the call. An error saying that an input is unsupported names a value of the form (scalar, vector, matrix) of one of the operands.",
 ["inputs", "programs"], "over all operations, kinds, shapes, indices, exponents and malformations, on operands obtained in any way",
 "Tests compare the message of one refused call per method; arguments swapped, a stale row or index, a check made in the wrong order or against the wrong operand show only for other shapes, kinds and positions.",
 ["smErrors/matrix_dimension_error.go", "smErrors/vector_dimension_error.go", "smErrors/out_of_bounds_error.go", "smErrors/negative_exponent.go", "smErrors/matrix_column_mismatch.go", "smErrors/empty_matrix.go", "smErrors/empty_vector.go", "smErrors/empty_linear_coeffs.go", "smErrors/linear_coeffs.go", "smErrors/linear_expression_required.go", "smErrors/equality_constraint_required.go", "smErrors/inequality_constraint_required.go", "smErrors/unsupported_input.go", S+"expression.go", "get/KMatrix/from.go"]+SCAL+VEC+MAT+CON,
 [("error values", "smErrors"), ("checks before computing", "CheckDimensionsIn*, CheckIndexOn*, Check of each kind; LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation, LinearCoeff, Power")],
 ["the value of the panic or the error returned: its type, its fields and its text"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
