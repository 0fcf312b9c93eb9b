package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// NS is the number of variable slots of the specification, 8 or 20; the last
// one stands for every variable the program did not create.
var NS = 8

const maxNS = 20

// Machine holds one program's live objects.
type Machine struct {
	Envs  []sm.Environment
	Vars  []sm.Variable // 0-based; slot = index + 1
	Regs  []interface{} // 0-based; register = index + 1
	Dump  []string      // raw dump of each register when last logged
	Names []string      // names of Envs
}

// A number x = n / 2^k is observed as [n, k], and as [sign, k, digits...] when
// n is 2^30 or more: its digits in base 4096, least significant first.  NaN
// and infinities are [0, -1].
const (
	limObs  = 1 << 30
	baseObs = 12
)

func dyadic(x float64) []int {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return []int{0, -1}
	}
	k := 0
	for x != math.Trunc(x) {
		x *= 2
		k++
	}
	if math.Abs(x) < limObs {
		return []int{int(x), k}
	}
	n, _ := new(big.Float).SetFloat64(x).Int(nil)
	out := []int{n.Sign(), k}
	n.Abs(n)
	for d := new(big.Int); n.Sign() > 0; n.Rsh(n, baseObs) {
		out = append(out, int(d.And(n, big.NewInt(1<<baseObs-1)).Int64()))
	}
	return out
}

// numerator is that of the coefficient of an observed term, if it is below
// 2^53.
func numerator(t interface{}) (n int64, k int, ok bool) {
	x := t.([]interface{})
	n, k = int64(x[0].(int)), x[1].(int)
	if len(x) < 4 {
		return n, k, true
	}
	var m int64
	ds := x[3].([]int)
	if len(ds) > 5 {
		return 0, k, false
	}
	for i := len(ds) - 1; i >= 0; i-- {
		m = m<<baseObs + int64(ds[i])
	}
	return n * m, k, m < 1<<53
}

func fromDyadic(d [2]int) float64 {
	return math.Ldexp(float64(d[0]), -d[1])
}

// idCode stands for an identifier where TLC cannot hold it.
func (m *Machine) idCode(id uint64) int {
	if id <= 1<<30 {
		return int(id)
	}
	for i, v := range m.Vars {
		if v.ID == id {
			return 1<<30 + 1 + i
		}
	}
	return -1
}

// slot finds the variable's slot by environment and identifier.  The second
// result is false when the variable's other fields are not those it was
// created with.
func (m *Machine) slot(v sm.Variable) (int, bool) {
	for i, w := range m.Vars {
		if w.ID == v.ID && w.Environment == v.Environment {
			return i + 1, w == v
		}
	}
	return NS, false
}

// EObs is the projection of an expression.
type EObs struct {
	T   string          `json:"t"`   // "e"
	K   string          `json:"k"`   // kind
	R   int             `json:"r"`   // rows (raw)
	C   int             `json:"c"`   // columns (raw)
	E   [][]interface{} `json:"e"`   // entries: lists of terms [n,k,[exponents]], see dyadic
	D   []int           `json:"d"`   // what Dims() says ([] if it panics)
	Chk string          `json:"chk"` // what Check() says: ok, err, panic
	Mal bool            `json:"mal"` // structurally malformed
	Irr bool            `json:"irr"` // some term repeats a variable or has an exponent < 1
	Bad bool            `json:"bad"` // some coefficient is not a number
	MM  bool            `json:"mm"`  // some variable lost its metadata
	LS  []int           `json:"ls"`  // lengths of the rows of a malformed matrix
}

// CObs is the projection of a constraint.
type CObs struct {
	T   string `json:"t"` // "c"
	K   string `json:"k"` // S, V, M
	L   EObs   `json:"l"`
	RR  EObs   `json:"rr"`
	S   string `json:"s"` // le, ge, eq, ?
	Chk string `json:"chk"`
}

func call(f func()) (panicked bool, msg string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return
}

func senseCode(s sm.ConstrSense) string {
	switch s {
	case sm.SenseLessThanEqual:
		return "le"
	case sm.SenseGreaterThanEqual:
		return "ge"
	case sm.SenseEqual:
		return "eq"
	}
	return "?"
}

func senseOf(c string) sm.ConstrSense {
	switch c {
	case "le":
		return sm.SenseLessThanEqual
	case "ge":
		return sm.SenseGreaterThanEqual
	case "eq":
		return sm.SenseEqual
	}
	return sm.ConstrSense('?')
}

func (m *Machine) termOf(o *EObs, coef float64, vars []sm.Variable, exps []int) interface{} {
	d := dyadic(coef)
	if d[1] < 0 {
		o.Bad = true
		d = []int{0, 0}
	}
	e := make([]int, NS)
	seen := map[int]bool{}
	if len(vars) != len(exps) {
		o.Mal = true
	}
	for i, v := range vars {
		s, ok := m.slot(v)
		if !ok && s != NS {
			o.MM = true
		}
		if v.Lower >= v.Upper {
			o.Irr = true
		}
		x := 0
		if i < len(exps) {
			x = exps[i]
		}
		if seen[s] || x < 1 {
			o.Irr = true
		}
		seen[s] = true
		e[s-1] += x
	}
	return coefTerm(d, e)
}

func coefTerm(d, e []int) []interface{} {
	if len(d) > 2 {
		return []interface{}{d[0], d[1], e, d[2:]}
	}
	return []interface{}{d[0], d[1], e}
}

func (m *Machine) constTerms(o *EObs, x float64) []interface{} {
	return []interface{}{m.termOf(o, x, nil, nil)}
}

func (m *Machine) varTerms(o *EObs, v sm.Variable) []interface{} {
	if v.Lower >= v.Upper {
		o.Mal = true
	}
	s, ok := m.slot(v)
	if !ok && s != NS {
		o.MM = true
	}
	e := make([]int, NS)
	e[s-1] = 1
	return []interface{}{[]interface{}{1, 0, e}}
}

func (m *Machine) monTerms(o *EObs, x sm.Monomial) []interface{} {
	return []interface{}{m.termOf(o, x.Coefficient, x.VariableFactors, x.Exponents)}
}

func (m *Machine) polTerms(o *EObs, p sm.Polynomial) []interface{} {
	if len(p.Monomials) == 0 {
		o.Mal = true
	}
	out := []interface{}{}
	for _, x := range p.Monomials {
		out = append(out, m.termOf(o, x.Coefficient, x.VariableFactors, x.Exponents))
	}
	return out
}

// project computes the projection of an expression or numeric operand.
func (m *Machine) project(x interface{}) EObs {
	o := EObs{T: "e", R: 1, C: 1, E: [][]interface{}{}, D: []int{}, LS: []int{}}
	ragged := func(lens []int) {
		o.R = len(lens)
		o.C = 0
		if len(lens) > 0 {
			o.C = lens[0]
		}
		if o.R == 0 || o.C == 0 {
			o.Mal = true
		}
		for _, l := range lens {
			if l != o.C {
				o.Mal = true
				o.LS = lens
			}
		}
	}
	var lens []int
	switch v := x.(type) {
	case float64:
		o.K = "f64"
		o.E = append(o.E, m.constTerms(&o, v))
	case int:
		o.K = "int"
		o.E = append(o.E, m.constTerms(&o, float64(v)))
	case *mat.VecDense:
		o = m.project(*v)
		o.K = "pVD"
		return o
	case mat.VecDense:
		o.K = "VD"
		o.R = v.Len()
		for i := 0; i < v.Len(); i++ {
			o.E = append(o.E, m.constTerms(&o, v.AtVec(i)))
		}
	case *mat.Dense:
		o = m.project(*v)
		o.K = "pD"
		return o
	case mat.Dense:
		o.K = "D"
		o.R, o.C = v.Dims()
		for i := 0; i < o.R; i++ {
			for j := 0; j < o.C; j++ {
				o.E = append(o.E, m.constTerms(&o, v.At(i, j)))
			}
		}
	case sm.K:
		o.K = "K"
		o.E = append(o.E, m.constTerms(&o, float64(v)))
	case sm.Variable:
		o.K = "Var"
		o.E = append(o.E, m.varTerms(&o, v))
	case sm.Monomial:
		o.K = "Mon"
		o.E = append(o.E, m.monTerms(&o, v))
	case sm.Polynomial:
		o.K = "Pol"
		o.E = append(o.E, m.polTerms(&o, v))
	case sm.KVector:
		o.K = "KV"
		o.R = len(v)
		for _, e := range v {
			o.E = append(o.E, m.constTerms(&o, float64(e)))
		}
	case sm.VariableVector:
		o.K = "VV"
		o.R = len(v)
		for _, e := range v {
			o.E = append(o.E, m.varTerms(&o, e))
		}
	case sm.MonomialVector:
		o.K = "MV"
		o.R = len(v)
		for _, e := range v {
			o.E = append(o.E, m.monTerms(&o, e))
		}
	case sm.PolynomialVector:
		o.K = "PV"
		o.R = len(v)
		for _, e := range v {
			o.E = append(o.E, m.polTerms(&o, e))
		}
	case sm.KMatrix:
		o.K = "KM"
		for _, row := range v {
			lens = append(lens, len(row))
			for _, e := range row {
				o.E = append(o.E, m.constTerms(&o, float64(e)))
			}
		}
		ragged(lens)
	case sm.VariableMatrix:
		o.K = "VM"
		for _, row := range v {
			lens = append(lens, len(row))
			for _, e := range row {
				o.E = append(o.E, m.varTerms(&o, e))
			}
		}
		ragged(lens)
	case sm.MonomialMatrix:
		o.K = "MM"
		for _, row := range v {
			lens = append(lens, len(row))
			for _, e := range row {
				o.E = append(o.E, m.monTerms(&o, e))
			}
		}
		ragged(lens)
	case sm.PolynomialMatrix:
		o.K = "PM"
		for _, row := range v {
			lens = append(lens, len(row))
			for _, e := range row {
				o.E = append(o.E, m.polTerms(&o, e))
			}
		}
		ragged(lens)
	default:
		o.K = fmt.Sprintf("?%T", x)
		o.Mal = true
	}
	if o.R == 0 {
		o.Mal = true
	}
	o.Chk = "none"
	if ex, ok := x.(sm.Expression); ok {
		var err error
		p, _ := call(func() { err = ex.Check() })
		switch {
		case p:
			o.Chk = "panic"
		case err != nil:
			o.Chk = "err"
		default:
			o.Chk = "ok"
		}
		if !o.Mal {
			var d []int
			if p, _ := call(func() { d = ex.Dims() }); !p && d != nil {
				o.D = append([]int{}, d...)
			}
		}
	} else {
		o.Chk = "ok"
		o.D = []int{o.R, o.C}
	}
	return o
}

func (m *Machine) projectC(c sm.Constraint) CObs {
	o := CObs{T: "c", Chk: "none"}
	switch v := c.(type) {
	case sm.ScalarConstraint:
		o.K = "S"
		o.L, o.RR, o.S = m.project(v.LeftHandSide), m.project(v.RightHandSide), senseCode(v.Sense)
	case sm.VectorConstraint:
		o.K = "V"
		o.L, o.RR, o.S = m.project(v.LeftHandSide), m.project(v.RightHandSide), senseCode(v.Sense)
	case sm.MatrixConstraint:
		o.K = "M"
		o.L, o.RR, o.S = m.project(v.LeftHandSide), m.project(v.RightHandSide), senseCode(v.Sense)
	default:
		o.K = fmt.Sprintf("?%T", c)
		o.L, o.RR, o.S = m.project(nil), m.project(nil), "?"
		return o
	}
	var err error
	p, _ := call(func() { err = c.Check() })
	switch {
	case p:
		o.Chk = "panic"
	case err != nil:
		o.Chk = "err"
	default:
		o.Chk = "ok"
	}
	return o
}

// observe projects any register.
func (m *Machine) observe(x interface{}) interface{} {
	if c, ok := x.(sm.Constraint); ok {
		return m.projectC(c)
	}
	return m.project(x)
}

func dumpVar(b *strings.Builder, v sm.Variable) {
	fmt.Fprintf(b, "<%d %v %v %c %q %p>", v.ID, v.Lower, v.Upper, v.Type, v.Name, v.Environment)
}

func dumpMon(b *strings.Builder, x sm.Monomial) {
	fmt.Fprintf(b, "(%v %v", x.Coefficient, x.Exponents)
	for _, v := range x.VariableFactors {
		dumpVar(b, v)
	}
	b.WriteString(")")
}

func dumpPol(b *strings.Builder, p sm.Polynomial) {
	b.WriteString("{")
	for _, x := range p.Monomials {
		dumpMon(b, x)
	}
	b.WriteString("}")
}

func dumpInto(b *strings.Builder, x interface{}) {
	switch v := x.(type) {
	case sm.Variable:
		dumpVar(b, v)
	case sm.Monomial:
		dumpMon(b, v)
	case sm.Polynomial:
		dumpPol(b, v)
	case sm.VariableVector:
		b.WriteString("VV")
		for _, e := range v {
			dumpVar(b, e)
		}
	case sm.MonomialVector:
		b.WriteString("MV")
		for _, e := range v {
			dumpMon(b, e)
		}
	case sm.PolynomialVector:
		b.WriteString("PV")
		for _, e := range v {
			dumpPol(b, e)
		}
	case sm.VariableMatrix:
		b.WriteString("VM")
		for _, r := range v {
			dumpInto(b, sm.VariableVector(r))
			b.WriteString(";")
		}
	case sm.MonomialMatrix:
		b.WriteString("MM")
		for _, r := range v {
			dumpInto(b, sm.MonomialVector(r))
			b.WriteString(";")
		}
	case sm.PolynomialMatrix:
		b.WriteString("PM")
		for _, r := range v {
			dumpInto(b, sm.PolynomialVector(r))
			b.WriteString(";")
		}
	case mat.VecDense:
		fmt.Fprintf(b, "VD%v", v.RawVector().Data)
	case *mat.VecDense:
		fmt.Fprintf(b, "pVD%v", v.RawVector().Data)
	case mat.Dense:
		r, c := v.Dims()
		fmt.Fprintf(b, "D%d,%d,%v", r, c, v.RawMatrix().Data)
	case *mat.Dense:
		r, c := v.Dims()
		fmt.Fprintf(b, "pD%d,%d,%v", r, c, v.RawMatrix().Data)
	case sm.ScalarConstraint:
		b.WriteString("SC")
		dumpInto(b, v.LeftHandSide)
		b.WriteString(string(rune(v.Sense)))
		dumpInto(b, v.RightHandSide)
	case sm.VectorConstraint:
		b.WriteString("VC")
		dumpInto(b, v.LeftHandSide)
		b.WriteString(string(rune(v.Sense)))
		dumpInto(b, v.RightHandSide)
	case sm.MatrixConstraint:
		b.WriteString("MC")
		dumpInto(b, v.LeftHandSide)
		b.WriteString(string(rune(v.Sense)))
		dumpInto(b, v.RightHandSide)
	default:
		fmt.Fprintf(b, "%T%v", x, x)
	}
}

func rawDump(x interface{}) string {
	var b strings.Builder
	dumpInto(&b, x)
	return b.String()
}
