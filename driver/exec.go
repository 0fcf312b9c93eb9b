package main

import (
	"fmt"
	"math"
	"strings"

	getKMatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	getKVector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// driverError marks a misuse of the driver itself: never a verdict.
type driverError struct{ msg string }

func fail(format string, a ...interface{}) {
	panic(driverError{fmt.Sprintf(format, a...)})
}

// result of one step
type result struct {
	regs  []interface{} // new registers
	q     interface{}   // query answer
	err   error         // the error of a validity check
	argch bool          // an argument slice or map of the caller was changed
}

func (m *Machine) reg(i int) interface{} {
	if i < 1 || i > len(m.Regs) {
		fail("register %d of %d", i, len(m.Regs))
	}
	return m.Regs[i-1]
}

// asv is x as a T; the step does not apply to other values.
func asv[T any](x interface{}) T {
	v, ok := x.(T)
	if !ok {
		fail("a %T is not suitable here", x)
	}
	return v
}

func as[T any](m *Machine, i int) T { return asv[T](m.reg(i)) }

func (m *Machine) expr(i int) sm.Expression {
	if e, ok := m.reg(i).(sm.Expression); ok {
		return e
	}
	fail("register %d is %T, not an expression", i, m.reg(i))
	return nil
}

func (m *Machine) scalar(i int) sm.ScalarExpression {
	if e, ok := m.reg(i).(sm.ScalarExpression); ok {
		return e
	}
	fail("register %d is %T, not a scalar", i, m.reg(i))
	return nil
}

func (m *Machine) constr(i int) sm.Constraint {
	if e, ok := m.reg(i).(sm.Constraint); ok {
		return e
	}
	fail("register %d is %T, not a constraint", i, m.reg(i))
	return nil
}

func (m *Machine) variable(i int) sm.Variable {
	if i < 1 || i > len(m.Vars) {
		fail("variable %d", i)
	}
	return m.Vars[i-1]
}

func (m *Machine) varlist(vs []sm.Variable) interface{} {
	out := []interface{}{}
	for _, v := range vs {
		s, ok := m.slot(v)
		if !ok && s == NS {
			ok = true
		}
		b := 1
		if !ok {
			b = 0
		}
		out = append(out, []int{s, b})
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func dvec(v mat.VecDense) interface{} {
	out := []interface{}{}
	for i := 0; i < v.Len(); i++ {
		out = append(out, dyadic(v.AtVec(i)))
	}
	return out
}

func ddense(v mat.Dense) interface{} {
	out := []interface{}{}
	r, c := v.Dims()
	for i := 0; i < r; i++ {
		row := []interface{}{}
		for j := 0; j < c; j++ {
			row = append(row, dyadic(v.At(i, j)))
		}
		out = append(out, row)
	}
	return out
}

func one(x interface{}) result { return result{regs: []interface{}{x}} }
func ask(q interface{}) result { return result{q: q} }

func (m *Machine) subMap(s Step) map[sm.Variable]sm.Expression {
	out := map[sm.Variable]sm.Expression{}
	for _, p := range s.M {
		k := m.variable(p[0])
		if s.S == "badkey" {
			k.Lower, k.Upper = 2, 1
		}
		out[k] = m.expr(p[1])
	}
	return out
}

func (m *Machine) sliceOf(a []int) []sm.ScalarExpression {
	out := []sm.ScalarExpression{}
	for _, i := range a {
		out = append(out, m.scalar(i))
	}
	return out
}

// exec performs one step.  Panics of the library propagate to the caller.
func (m *Machine) exec(s Step) (res result) {
	n := func(i int) int {
		if i >= len(s.N) {
			fail("missing integer argument in %s", s.Op)
		}
		return s.N[i]
	}
	a := func(i int) int {
		if i >= len(s.A) {
			fail("missing register in %s", s.Op)
		}
		return s.A[i]
	}
	wrt := func() (args [][]sm.Variable, check func()) {
		if len(s.N) > 0 && s.N[0] == 1 {
			vs := []sm.Variable{}
			for _, i := range s.V {
				vs = append(vs, m.variable(i))
			}
			cp := append([]sm.Variable{}, vs...)
			return [][]sm.Variable{vs}, func() {
				for i := range vs {
					if vs[i] != cp[i] {
						res.argch = true
					}
				}
			}
		}
		return nil, func() {}
	}
	switch s.Op {
	case "mk":
		return one(m.build(s.Mk))

	// ---------------------------------------------------------- arithmetic
	case "plus":
		return one(m.expr(a(0)).Plus(m.reg(a(1))))
	case "minus":
		return one(m.expr(a(0)).Minus(m.reg(a(1))))
	case "minusfn":
		return one(sm.Minus(m.expr(a(0)), m.expr(a(1))))
	case "mul":
		return one(m.expr(a(0)).Multiply(m.reg(a(1))))
	case "pow":
		return one(m.expr(a(0)).Power(n(0)))
	case "tr":
		return one(m.expr(a(0)).Transpose())
	case "deriv":
		return one(m.expr(a(0)).DerivativeWrt(m.variable(s.V[0])))
	case "subst":
		return one(m.expr(a(0)).Substitute(m.variable(s.V[0]), m.scalar(a(1))))
	case "substmap":
		sub := m.subMap(s)
		before := map[sm.Variable]string{}
		for k, v := range sub {
			before[k] = rawDump(v)
		}
		r := one(m.expr(a(0)).SubstituteAccordingTo(sub))
		if len(before) != len(sub) {
			r.argch = true
		}
		for k, v := range sub {
			if before[k] != rawDump(v) {
				r.argch = true
			}
		}
		return r
	case "at":
		return one(m.expr(a(0)).At(n(0), n(1)))
	case "atvec":
		switch v := m.reg(a(0)).(type) {
		case sm.VectorExpression:
			return one(v.AtVec(n(0)))
		}
		fail("atvec on %T", m.reg(a(0)))
	case "simp":
		return one(m.expr(a(0)).AsSimplifiedExpression())
	case "simplify":
		switch v := m.reg(a(0)).(type) {
		case sm.Polynomial:
			return one(v.Simplify())
		case sm.PolynomialVector:
			return one(v.Simplify())
		case sm.PolynomialMatrix:
			return one(v.Simplify())
		}
		fail("simplify on %T", m.reg(a(0)))
	case "hstack", "vstack":
		var es []sm.Expression
		for _, i := range s.A {
			es = append(es, m.expr(i))
		}
		if s.Op == "hstack" {
			return one(sm.HStack(es...))
		}
		return one(sm.VStack(es...))
	case "conce": // ConcretizeExpression on a scalar
		return one(sm.ConcretizeExpression(m.scalar(a(0))))
	case "concev": // ConcretizeExpression on a list
		return one(sm.ConcretizeExpression(m.sliceOf(s.A)))
	case "concv":
		return one(sm.ConcretizeVectorExpression(m.sliceOf(s.A)))
	case "concem", "concm":
		var rows [][]sm.ScalarExpression
		k := 0
		for _, l := range s.N {
			rows = append(rows, m.sliceOf(s.A[k:k+l]))
			k += l
		}
		if s.Op == "concem" {
			return one(sm.ConcretizeExpression(rows))
		}
		return one(sm.ConcretizeMatrixExpression(rows))
	case "conv":
		return m.convert(s.S, m.reg(a(0)))
	case "copy":
		switch v := m.reg(a(0)).(type) {
		case sm.Monomial:
			return one(v.Copy())
		case sm.Polynomial:
			return one(v.Copy())
		case sm.VariableVector:
			return one(v.Copy())
		}
		fail("copy on %T", m.reg(a(0)))
	case "poke":
		m.poke(a(0), n(0))
		return result{}
	case "toscalars":
		switch v := m.reg(a(0)).(type) {
		case sm.VectorExpression:
			for _, e := range v.ToScalarExpressions() {
				res.regs = append(res.regs, e)
			}
			return res
		}
		fail("toscalars on %T", m.reg(a(0)))

	// ------------------------------------------------------------- queries
	case "check":
		var err error
		if e, ok := m.reg(a(0)).(sm.Constraint); ok {
			err = e.Check()
		} else {
			err = m.expr(a(0)).Check()
		}
		return result{q: b2i(err == nil), err: err}
	case "dims":
		return ask(append([]int{}, m.expr(a(0)).Dims()...))
	case "len":
		switch v := m.reg(a(0)).(type) {
		case sm.VariableVector:
			return ask([]int{v.Len(), v.Length()})
		case sm.PolynomialVector:
			return ask([]int{v.Len(), v.Length()})
		case sm.VectorExpression:
			return ask([]int{v.Len(), v.Len()})
		}
		fail("len on %T", m.reg(a(0)))
	case "degree":
		switch v := m.reg(a(0)).(type) {
		case interface{ Degree() int }:
			return ask(v.Degree())
		}
		fail("degree on %T", m.reg(a(0)))
	case "vars":
		return ask(m.varlist(m.expr(a(0)).Variables()))
	case "numvars":
		return ask(sm.NumVariables(m.expr(a(0))))
	case "varids":
		out := []int{}
		for _, i := range sm.VariableIDs(m.expr(a(0))) {
			out = append(out, m.idCode(i))
		}
		return ask(out)
	case "const":
		switch v := m.reg(a(0)).(type) {
		case sm.ScalarExpression:
			return ask([]interface{}{[]interface{}{dyadic(v.Constant())}})
		case sm.VectorExpression:
			c := v.Constant()
			out := []interface{}{}
			for i := 0; i < c.Len(); i++ {
				out = append(out, []interface{}{dyadic(c.AtVec(i))})
			}
			return ask(out)
		case sm.MatrixExpression:
			return ask(ddense(v.Constant()))
		}
		fail("const on %T", m.reg(a(0)))
	case "lincoef":
		w, done := wrt()
		defer done()
		order := func(e sm.Expression) interface{} {
			if len(w) == 1 {
				return m.varlist(w[0])
			}
			return m.varlist(e.Variables())
		}
		switch v := m.reg(a(0)).(type) {
		case sm.ScalarExpression:
			return ask([]interface{}{[]interface{}{dvec(v.LinearCoeff(w...))}, order(v)})
		case sm.VectorExpression:
			return ask([]interface{}{ddense(v.LinearCoeff(w...)), order(v)})
		}
		fail("lincoef on %T", m.reg(a(0)))
	case "islin":
		return ask(b2i(sm.IsLinear(m.expr(a(0)))))
	case "isquad":
		return ask(b2i(sm.IsQuadratic(m.expr(a(0)))))
	case "isconst":
		switch v := m.reg(a(0)).(type) {
		case sm.Monomial:
			return ask(b2i(v.IsConstant()))
		case sm.Polynomial:
			return ask(b2i(v.IsConstant()))
		case sm.MonomialVector:
			return ask(b2i(v.IsConstant()))
		case sm.PolynomialVector:
			return ask(b2i(v.IsConstantVector()))
		}
		fail("isconst on %T", m.reg(a(0)))
	case "iszero":
		return ask(b2i(as[sm.Monomial](m, a(0)).IsZero()))
	case "isvar":
		return ask(b2i(as[sm.Monomial](m, a(0)).IsVariable(m.variable(s.V[0]))))
	case "isdeg1":
		return ask(b2i(as[sm.Monomial](m, a(0)).IsDegreeOneContainingVariable(m.variable(s.V[0]))))
	case "matches":
		return ask(b2i(as[sm.Monomial](m, a(0)).MatchesFormOf(as[sm.Monomial](m, a(1)))))
	case "monidx":
		p := as[sm.Polynomial](m, a(0))
		return ask(m.monAt(p, p.MonomialIndex(as[sm.Monomial](m, a(1)))))
	case "varmonidx":
		p := as[sm.Polynomial](m, a(0))
		return ask(m.monAt(p, p.VariableMonomialIndex(m.variable(s.V[0]))))
	case "constmonidx":
		p := as[sm.Polynomial](m, a(0))
		return ask(m.monAt(p, p.ConstantMonomialIndex()))
	case "issquare":
		return ask(b2i(sm.IsSquare(as[sm.MatrixExpression](m, a(0)))))
	case "preds":
		x := m.reg(a(0))
		if c, ok := x.(sm.Constraint); ok { // and through a pointer
			var q interface{}
			switch v := c.(type) {
			case sm.ScalarConstraint:
				q = &v
			case sm.VectorConstraint:
				q = &v
			case sm.MatrixConstraint:
				q = &v
			}
			return ask([]int{b2i(sm.IsExpression(x)), b2i(sm.IsConstraint(x)), b2i(sm.IsConstraint(q))})
		}
		return ask([]int{
			b2i(sm.IsExpression(x)), b2i(sm.IsScalarExpression(x)), b2i(sm.IsVectorExpression(x)),
			b2i(sm.IsMatrixExpression(x)), b2i(sm.IsPolynomialLike(x)), b2i(sm.IsPolynomialLikeScalar(x)),
			b2i(sm.IsPolynomialLikeVector(x)), b2i(sm.IsPolynomialLikeMatrix(x)), b2i(sm.IsConstraint(x)),
		})
	case "str":
		return ask(m.parseExpr(m.expr(a(0)).String()))
	case "cstr":
		return ask(m.parseConstraint(as[sm.ScalarConstraint](m, a(0)).String()))
	case "unique": // Unique on a list of numbers
		l := []uint64{}
		for _, i := range s.N {
			l = append(l, uint64(i))
		}
		out := []int{}
		for _, i := range sm.Unique(l) {
			out = append(out, m.idCode(i))
		}
		for i := range l {
			res.argch = res.argch || l[i] != uint64(s.N[i])
		}
		res.q = out
		return res
	case "find": // FindInSlice: the first number (variable) among the others
		return ask(m.find(s))
	case "uniq": // UniqueVars on a list of variables
		vs := []sm.Variable{}
		for _, i := range s.V {
			vs = append(vs, m.variable(i))
		}
		return ask(m.varlist(sm.UniqueVars(vs)))
	case "union": // UnionOfVariables of lists of lengths N
		var ls [][]sm.Variable
		k := 0
		for _, l := range s.N {
			vs := make([]sm.Variable, 0, 16)
			for _, i := range s.V[k : k+l] {
				vs = append(vs, m.variable(i))
			}
			ls = append(ls, vs)
			k += l
		}
		return ask(m.varlist(sm.UnionOfVariables(ls...)))

	// --------------------------------------------------------- constraints
	case "cmp":
		l, r := m.expr(a(0)), m.reg(a(1))
		if len(s.N) > 0 && s.N[0] == 1 {
			switch s.S {
			case "le":
				return one(l.LessEq(r))
			case "ge":
				return one(l.GreaterEq(r))
			case "eq":
				return one(l.Eq(r))
			}
		}
		return one(l.Comparison(r, senseOf(s.S)))
	case "mkc":
		l, r := m.reg(a(0)), m.reg(a(1))
		switch lv := l.(type) {
		case sm.ScalarExpression:
			return one(sm.ScalarConstraint{LeftHandSide: lv, RightHandSide: asv[sm.ScalarExpression](r), Sense: senseOf(s.S)})
		case sm.VectorExpression:
			return one(sm.VectorConstraint{LeftHandSide: lv, RightHandSide: asv[sm.VectorExpression](r), Sense: senseOf(s.S)})
		case sm.MatrixExpression:
			return one(sm.MatrixConstraint{LeftHandSide: lv, RightHandSide: asv[sm.MatrixExpression](r), Sense: senseOf(s.S)})
		}
		fail("mkc on %T", l)
	case "left":
		return one(m.constr(a(0)).Left())
	case "right":
		return one(m.constr(a(0)).Right())
	case "csense":
		return ask(senseCode(m.constr(a(0)).ConstrSense()))
	case "cdims":
		switch v := m.reg(a(0)).(type) {
		case sm.VectorConstraint:
			return ask(append([]int{}, v.Dims()...))
		case sm.MatrixConstraint:
			return ask(append([]int{}, v.Dims()...))
		}
		fail("cdims on %T", m.reg(a(0)))
	case "clen":
		return ask(as[sm.VectorConstraint](m, a(0)).Len())
	case "catvec":
		return one(as[sm.VectorConstraint](m, a(0)).AtVec(n(0)))
	case "cat":
		return one(as[sm.MatrixConstraint](m, a(0)).At(n(0), n(1)))
	case "csimplify":
		return one(as[sm.ScalarConstraint](m, a(0)).Simplify())
	case "cassimp":
		return one(m.constr(a(0)).AsSimplifiedConstraint())
	case "cscale":
		return one(as[sm.ScalarConstraint](m, a(0)).ScaleBy(fromDyadic(*s.F)))
	case "csubst":
		return one(m.constr(a(0)).Substitute(m.variable(s.V[0]), m.scalar(a(1))))
	case "csubstmap":
		return one(m.constr(a(0)).SubstituteAccordingTo(m.subMap(s)))
	case "cvars":
		return ask(m.varlist(m.constr(a(0)).Variables()))
	case "cvarsfn":
		return ask(m.varlist(sm.VariablesInThisConstraint(m.constr(a(0)))))
	case "cislin":
		return ask(b2i(m.constr(a(0)).IsLinear()))
	case "implies":
		return ask(b2i(m.constr(a(0)).ImpliesThisIsAlsoSatisfied(m.constr(a(1)))))
	case "nonneg":
		return ask(b2i(as[sm.ScalarConstraint](m, a(0)).IsNonnegativityConstraint()))
	case "ineqrep", "eqrep":
		w, done := wrt()
		defer done()
		switch v := m.reg(a(0)).(type) {
		case sm.ScalarConstraint:
			var A mat.VecDense
			var b float64
			if s.Op == "ineqrep" {
				A, b = v.LinearInequalityConstraintRepresentation(w...)
			} else {
				A, b = v.LinearEqualityConstraintRepresentation(w...)
			}
			order := m.reporder(v, w)
			return ask([]interface{}{[]interface{}{dvec(A)}, []interface{}{dyadic(b)}, order})
		case sm.VectorConstraint:
			var A mat.Dense
			var b mat.VecDense
			if s.Op == "ineqrep" {
				A, b = v.LinearInequalityConstraintRepresentation(w...)
			} else {
				A, b = v.LinearEqualityConstraintRepresentation(w...)
			}
			order := m.reporder(v, w)
			return ask([]interface{}{ddense(A), dvec(b), order})
		}
		fail("%s on %T", s.Op, m.reg(a(0)))
	case "compile":
		cs := []sm.Constraint{}
		for _, i := range s.A {
			cs = append(cs, m.constr(i))
		}
		for _, c := range sm.CompileConstraintsIntoScalarConstraints(cs) {
			res.regs = append(res.regs, c)
		}
		return res

	// -------------------------------------------------------- environments
	case "mkenv":
		m.Envs = append(m.Envs, makeEnv(s.S))
		m.Names = append(m.Names, s.S)
		return ask(m.envAll(len(m.Envs)))
	case "newvar":
		e := m.env(n(0))
		var v sm.Variable
		switch s.S {
		case "b":
			v = sm.NewBinaryVariable(e...)
		case "c":
			v = sm.NewContinuousVariable(e...)
		default:
			v = sm.NewVariable(e...)
		}
		return ask([]interface{}{[]interface{}{m.envVar(v)}, m.envAll(n(0))})
	case "newvec":
		out := []interface{}{}
		for _, v := range sm.NewVariableVector(n(1), m.env(n(0))...) {
			out = append(out, m.envVar(v))
		}
		return ask([]interface{}{out, m.envAll(n(0))})
	case "newmat":
		out := []interface{}{}
		var vm sm.VariableMatrix
		if s.S == "classic" {
			vm = sm.NewVariableMatrixClassic(n(1), n(2), m.env(n(0))...)
		} else {
			vm = sm.NewVariableMatrix(n(1), n(2), m.env(n(0))...)
		}
		for _, r := range vm {
			row := []interface{}{}
			for _, v := range r {
				row = append(row, m.envVar(v))
			}
			out = append(out, row)
		}
		return ask([]interface{}{out, m.envAll(n(0))})
	case "track": // n = [env, id] or [env, id, owner] or [env, id, owner, type, bounds]; s: name
		v := sm.Variable{ID: envID(n(1)), Lower: -1, Upper: 1, Type: sm.Continuous, Name: fmt.Sprintf("u_%d", n(1))}
		if s.S != "" {
			v.Name = s.S
		}
		if len(s.N) > 4 {
			v.Type = []sm.VarType{sm.Continuous, sm.Binary, sm.Integer}[(n(3)+2)%3]
			switch n(4) {
			case 1:
				v.Lower, v.Upper = -1e100, 1e100
			case 2:
				v.Lower, v.Upper = 0, 1
			}
		}
		owner := n(0)
		if len(s.N) > 2 { // a variable of another environment
			owner = n(2)
		}
		if owner > 0 {
			v.Environment = m.Envs[owner-1]
		} else {
			v.Environment = &sm.DefaultEnvironment
		}
		var ok bool
		if n(0) > 0 {
			ok = m.Envs[n(0)-1].TrackVariable(v)
		} else {
			ok = sm.DefaultEnvironment.TrackVariable(v)
		}
		return ask([]interface{}{b2i(ok), m.envAll(n(0))})
	case "all":
		return ask(m.envAll(n(0)))
	case "envname":
		if n(0) == 0 {
			return ask(sm.DefaultEnvironment.GetName())
		}
		return ask(m.Envs[n(0)-1].GetName())
	}
	fail("unknown op %q", s.Op)
	return
}

// reporder is the variable order of a representation without an explicit
// variable list: the variables of left minus right, as the library reports.
func (m *Machine) reporder(c sm.Constraint, w [][]sm.Variable) interface{} {
	if len(w) == 1 {
		return m.varlist(w[0])
	}
	var out interface{} = []interface{}{}
	call(func() {
		d := c.Left().Minus(c.Right())
		out = m.varlist(d.Variables())
	})
	return out
}

func (m *Machine) env(i int) []sm.Environment {
	if i == 0 {
		return nil // the default environment
	}
	return []sm.Environment{m.Envs[i-1]}
}

// envID is the identifier a number of a program stands for: small numbers
// stand for themselves, those above 2^30 for identifiers beyond 32 bits.
func envID(n int) uint64 {
	switch {
	case n <= 1<<30:
		return uint64(n)
	case n < 1<<30+1<<20:
		return 1<<32 + uint64(n-1<<30)
	}
	return math.MaxUint64 - uint64(1<<30+1<<21-n)
}

// ownEnv is an environment that the library's user wrote.
type ownEnv struct {
	called string
	held   map[uint64]sm.Variable
	order  []uint64
}

func (e *ownEnv) GetName() string { return e.called }
func (e *ownEnv) TrackVariable(v sm.Variable) bool {
	if _, ok := e.held[v.ID]; ok {
		return false
	}
	e.held[v.ID] = v
	e.order = append([]uint64{v.ID}, e.order...)
	return true
}
func (e *ownEnv) AllTrackedVariables() []sm.Variable {
	var out []sm.Variable
	for _, id := range e.order {
		out = append(out, e.held[id])
	}
	return out
}

// embEnv extends the library's environment.
type embEnv struct {
	sm.BasicEnvironment
	Notes string
}

func makeEnv(name string) sm.Environment {
	switch {
	case strings.HasPrefix(name, "own-"):
		return &ownEnv{called: name, held: map[uint64]sm.Variable{}}
	case strings.HasPrefix(name, "emb-"):
		return &embEnv{BasicEnvironment: sm.MakeBasicEnvironment(name)}
	}
	e := sm.MakeBasicEnvironment(name)
	return &e
}

// envVar projects a variable of the environment family:
// [environment index, id, kind code, bounds code]
func (m *Machine) envVar(v sm.Variable) []int {
	ei := -1
	if v.Environment == sm.Environment(&sm.DefaultEnvironment) {
		ei = 0
	}
	for i, e := range m.Envs {
		if v.Environment == e {
			ei = i + 1
		}
	}
	k := 0
	switch v.Type {
	case sm.Continuous:
		k = 1
	case sm.Binary:
		k = 2
	case sm.Integer:
		k = 3
	}
	b := 0
	switch {
	case v.Lower <= -1e99 && v.Upper >= 1e99:
		b = 1
	case v.Lower == 0 && v.Upper == 1:
		b = 2
	case v.Lower == -1 && v.Upper == 1:
		b = 3
	}
	id := -1
	switch {
	case v.ID <= 1<<30:
		id = int(v.ID)
	case v.ID >= 1<<32 && v.ID < 1<<32+1<<20:
		id = 1<<30 + int(v.ID-1<<32)
	case v.ID > math.MaxUint64-1<<20:
		id = 1<<30 + 1<<21 - int(math.MaxUint64-v.ID)
	}
	return []int{ei, id, k, b}
}

func (m *Machine) envAll(i int) interface{} {
	out := []interface{}{}
	var vs []sm.Variable
	if i == 0 {
		vs = sm.DefaultEnvironment.AllTrackedVariables()
	} else {
		vs = m.Envs[i-1].AllTrackedVariables()
	}
	for _, v := range vs {
		out = append(out, m.envVar(v))
	}
	return out
}

// poke changes a value through its public fields, as its owner may.
func (m *Machine) poke(i int, how int) {
	switch v := m.reg(i).(type) {
	case sm.Monomial:
		switch how % 3 {
		case 0:
			if len(v.Exponents) > 0 {
				v.Exponents[0] += 3
			}
		case 1:
			if len(v.VariableFactors) > 0 {
				v.VariableFactors[0] = m.Vars[len(m.Vars)-1]
			}
		default:
			v.Coefficient += 2
		}
		m.Regs[i-1] = v
	case sm.Polynomial:
		k := how / 3 % len(v.Monomials)
		switch how % 3 {
		case 0:
			if len(v.Monomials[k].Exponents) > 0 {
				v.Monomials[k].Exponents[0] += 3
			} else {
				v.Monomials[k].Coefficient += 2
			}
		case 1:
			if len(v.Monomials[k].VariableFactors) > 0 {
				v.Monomials[k].VariableFactors[0] = m.Vars[len(m.Vars)-1]
			} else {
				v.Monomials[k].Coefficient += 2
			}
		default:
			v.Monomials[k].Coefficient += 2
		}
		m.Regs[i-1] = v
	case sm.VariableVector:
		v[how%len(v)] = m.Vars[len(m.Vars)-1]
	case sm.KVector:
		v[how%len(v)] += 2
	case sm.KMatrix:
		r := how % len(v)
		c := (how / len(v)) % len(v[r])
		v[r][c] += 2
	case mat.VecDense:
		v.SetVec(how%v.Len(), v.AtVec(how%v.Len())+2)
	case *mat.VecDense:
		v.SetVec(how%v.Len(), v.AtVec(how%v.Len())+2)
	case mat.Dense:
		r, c := v.Dims()
		v.Set(how%r, (how/r)%c, v.At(how%r, (how/r)%c)+2)
	case *mat.Dense:
		r, c := v.Dims()
		v.Set(how%r, (how/r)%c, v.At(how%r, (how/r)%c)+2)
	default:
		fail("poke on %T", v)
	}
}

func (m *Machine) convert(name string, x interface{}) result {
	must := func(e interface{}, err error) result {
		if err != nil {
			panic(err)
		}
		return one(e)
	}
	switch name {
	case "ToMonomial":
		switch v := x.(type) {
		case sm.K:
			return one(v.ToMonomial())
		case sm.Variable:
			return one(v.ToMonomial())
		}
	case "ToPolynomial":
		switch v := x.(type) {
		case interface{ ToPolynomial() sm.Polynomial }:
			return one(v.ToPolynomial())
		}
	case "ToMonomialVector":
		switch v := x.(type) {
		case interface{ ToMonomialVector() sm.MonomialVector }:
			return one(v.ToMonomialVector())
		}
	case "ToPolynomialVector":
		switch v := x.(type) {
		case interface{ ToPolynomialVector() sm.PolynomialVector }:
			return one(v.ToPolynomialVector())
		}
	case "ToMonomialMatrix":
		switch v := x.(type) {
		case interface{ ToMonomialMatrix() sm.MonomialMatrix }:
			return one(v.ToMonomialMatrix())
		}
	case "ToPolynomialMatrix":
		switch v := x.(type) {
		case interface{ ToPolynomialMatrix() sm.PolynomialMatrix }:
			return one(v.ToPolynomialMatrix())
		}
	case "ToVariable":
		return one(asv[sm.Monomial](x).ToVariable())
	case "ToVecDense":
		return one(asv[sm.KVector](x).ToVecDense())
	case "ToDense":
		return one(asv[sm.KMatrix](x).ToDense())
	case "VecDenseToKVector":
		switch v := x.(type) {
		case mat.VecDense:
			return one(sm.VecDenseToKVector(v))
		case *mat.VecDense:
			return one(sm.VecDenseToKVector(*v))
		}
	case "DenseToKMatrix":
		switch v := x.(type) {
		case mat.Dense:
			return one(sm.DenseToKMatrix(v))
		case *mat.Dense:
			return one(sm.DenseToKMatrix(*v))
		}
	case "getKVector":
		return one(getKVector.From(x))
	case "getKMatrix":
		return one(getKMatrix.From(x))
	case "getKVectorF": // from []float64
		v := asv[mat.VecDense](x)
		f := []float64{}
		for i := 0; i < v.Len(); i++ {
			f = append(f, v.AtVec(i))
		}
		out := getKVector.From(f)
		for i := range f {
			if f[i] != v.AtVec(i) {
				return result{regs: []interface{}{out}, argch: true}
			}
			f[i] = math.Inf(1) // the caller reuses its slice
		}
		return one(out)
	case "getKVectorI": // from []int
		v := asv[mat.VecDense](x)
		f := []int{}
		for i := 0; i < v.Len(); i++ {
			f = append(f, int(v.AtVec(i)))
		}
		return one(getKVector.From(f))
	case "getKMatrixF", "getKMatrixR": // from [][]float64, the second with a ragged last row
		v := asv[mat.Dense](x)
		r, c := v.Dims()
		f := [][]float64{}
		for i := 0; i < r; i++ {
			row := []float64{}
			for j := 0; j < c; j++ {
				row = append(row, v.At(i, j))
			}
			f = append(f, row)
		}
		if name == "getKMatrixR" && r > 1 {
			f[r-1] = append(f[r-1], 1)
		}
		out := getKMatrix.From(f)
		for i := range f {
			for j := range f[i] {
				f[i][j] = math.Inf(1)
			}
		}
		return one(out)
	case "ToExpression":
		e, err := sm.ToExpression(x)
		return must(e, err)
	case "ToScalarExpression":
		e, err := sm.ToScalarExpression(x)
		return must(e, err)
	case "ToVectorExpression":
		e, err := sm.ToVectorExpression(x)
		return must(e, err)
	case "ToMatrixExpression":
		e, err := sm.ToMatrixExpression(x)
		return must(e, err)
	case "ToPolynomialLike":
		e, err := sm.ToPolynomialLike(x)
		return must(e, err)
	case "ToPolynomialLikeScalar":
		e, err := sm.ToPolynomialLikeScalar(x)
		return must(e, err)
	case "ToPolynomialLikeVector":
		e, err := sm.ToPolynomialLikeVector(x)
		return must(e, err)
	case "ToPolynomialLikeMatrix":
		e, err := sm.ToPolynomialLikeMatrix(x)
		return must(e, err)
	}
	fail("conversion %s on %T", name, x)
	return result{}
}

// find looks an element up in a list of the kind named by s.S; "wrong" passes
// a list of another kind.
func (m *Machine) find(s Step) int {
	num := func(err error, i int) int {
		if err != nil {
			panic(err)
		}
		return i
	}
	switch s.S {
	case "int", "wrong":
		if s.S == "wrong" {
			i, err := sm.FindInSlice("1", s.N[1:])
			return num(err, i)
		}
		i, err := sm.FindInSlice(s.N[0], append([]int{}, s.N[1:]...))
		return num(err, i)
	case "string":
		l := []string{}
		for _, x := range s.N[1:] {
			l = append(l, fmt.Sprint("s", x))
		}
		i, err := sm.FindInSlice(fmt.Sprint("s", s.N[0]), l)
		return num(err, i)
	case "uint64":
		l := []uint64{}
		for _, x := range s.N[1:] {
			l = append(l, uint64(x))
		}
		i, err := sm.FindInSlice(uint64(s.N[0]), l)
		return num(err, i)
	}
	vs := []sm.Variable{}
	for _, i := range s.V[1:] {
		vs = append(vs, m.variable(i))
	}
	i, err := sm.FindInSlice(m.variable(s.V[0]), vs)
	return num(err, i)
}

// monAt: a term index and the exponents of the term there.
func (m *Machine) monAt(p sm.Polynomial, i int) interface{} {
	if i < 0 {
		return []interface{}{-1, []int{}}
	}
	var o EObs
	if i >= len(p.Monomials) {
		return []interface{}{i, []int{}}
	}
	x := p.Monomials[i]
	t := m.termOf(&o, x.Coefficient, x.VariableFactors, x.Exponents).([]interface{})
	return []interface{}{i, t[2]}
}
