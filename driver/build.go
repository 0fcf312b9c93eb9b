package main

import (
	"math"

	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

func (m *Machine) makeVar(v VarMk) sm.Variable {
	w := sm.Variable{ID: v.ID, Name: v.Name}
	switch v.Kind {
	case "b":
		w.Type, w.Lower, w.Upper = sm.Binary, 0, 1
	case "i":
		w.Type, w.Lower, w.Upper = sm.Integer, -5, 5
	default:
		w.Type = sm.Continuous
		w.Lower, w.Upper = float64(-sm.Infinity), float64(sm.Infinity)
	}
	switch v.B {
	case 1:
		w.Lower, w.Upper = -1, 1
	case 2:
		w.Lower, w.Upper = 0, 10
	}
	if v.Env < 0 {
		w.Environment = &sm.DefaultEnvironment
	} else if v.Env > 0 {
		w.Environment = m.Envs[v.Env-1]
	}
	return w
}

// arena hands out slices that are windows of shared arrays with spare
// capacity, as a caller who appends to or reslices its own slices has them.
type arena struct {
	vars []sm.Variable
	ints []int
	mons []sm.Monomial
}

func (a *arena) v(src []sm.Variable) []sm.Variable {
	s := len(a.vars)
	a.vars = append(a.vars, src...)
	return a.vars[s:len(a.vars)]
}
func (a *arena) i(src []int) []int {
	s := len(a.ints)
	a.ints = append(a.ints, src...)
	return a.ints[s:len(a.ints)]
}

func (m *Machine) build(mk *Mk) interface{} {
	a := &arena{vars: make([]sm.Variable, 0, 256), ints: make([]int, 0, 256)}
	bad := func(i int, code string) bool { return mk.Bad == code && mk.At == i }
	coef := func(i int) float64 {
		if i >= len(mk.E) || len(mk.E[i]) == 0 {
			return 0
		}
		return fromDyadic(mk.E[i][0].C)
	}
	variable := func(i int) sm.Variable {
		v := m.Vars[mk.E[i][0].F[0][0]-1]
		if bad(i, "bounds") {
			v.Lower, v.Upper = 1, 1
		}
		return v
	}
	term := func(t TermMk) sm.Monomial {
		vs := []sm.Variable{}
		es := []int{}
		for _, f := range t.F {
			vs = append(vs, m.Vars[f[0]-1])
			es = append(es, f[1])
		}
		if mk.Cap == 1 {
			vs, es = a.v(vs), a.i(es)
		}
		return sm.Monomial{Coefficient: fromDyadic(t.C), VariableFactors: vs, Exponents: es}
	}
	spoil := func(x sm.Monomial) sm.Monomial {
		if len(x.Exponents) > 0 && mk.At%2 == 0 {
			x.Exponents = x.Exponents[:len(x.Exponents)-1]
		} else {
			x.Exponents = append(append([]int{}, x.Exponents...), 1)
		}
		return x
	}
	mon := func(i int) sm.Monomial {
		x := term(mk.E[i][0])
		if bad(i, "exp") {
			x = spoil(x)
		}
		return x
	}
	pol := func(i int) sm.Polynomial {
		p := sm.Polynomial{}
		for _, t := range mk.E[i] {
			p.Monomials = append(p.Monomials, term(t))
		}
		if bad(i, "nil") {
			p.Monomials = nil
		}
		if bad(i, "exp") {
			k := len(p.Monomials) - 1
			p.Monomials[k] = spoil(p.Monomials[k])
		}
		return p
	}
	n := mk.R * mk.C
	// row lengths, possibly ragged
	row := func(r int) int {
		if mk.Bad == "ragged" && r == mk.At {
			return mk.C - 1
		}
		return mk.C
	}
	switch mk.K {
	case "f64":
		return coef(0)
	case "int":
		return int(coef(0))
	case "K":
		return sm.K(coef(0))
	case "Var":
		return variable(0)
	case "Mon":
		return mon(0)
	case "Pol":
		return pol(0)
	case "VD", "pVD":
		d := make([]float64, n)
		for i := range d {
			d[i] = coef(i)
		}
		v := mat.NewVecDense(n, d)
		if asView(d) {
			// a column of a larger matrix
			v = larger(n, 1, d).ColView(1).(*mat.VecDense).SliceVec(1, 1+n).(*mat.VecDense)
		}
		if mk.K == "pVD" {
			return v
		}
		return *v
	case "D", "pD":
		d := make([]float64, n)
		for i := range d {
			d[i] = coef(i)
		}
		v := mat.NewDense(mk.R, mk.C, d)
		if asView(d) {
			// a part of a larger matrix
			v = larger(mk.R, mk.C, d).Slice(1, 1+mk.R, 1, 1+mk.C).(*mat.Dense)
		}
		if mk.K == "pD" {
			return v
		}
		return *v
	case "KV":
		v := sm.KVector{}
		for i := 0; i < n; i++ {
			v = append(v, sm.K(coef(i)))
		}
		return v
	case "VV":
		v := sm.VariableVector{}
		for i := 0; i < n; i++ {
			v = append(v, variable(i))
		}
		return v
	case "MV":
		v := sm.MonomialVector{}
		for i := 0; i < n; i++ {
			v = append(v, mon(i))
		}
		return v
	case "PV":
		v := sm.PolynomialVector{}
		for i := 0; i < n; i++ {
			v = append(v, pol(i))
		}
		return v
	case "KM":
		v := sm.KMatrix{}
		for r := 0; r < mk.R; r++ {
			w := []sm.K{}
			for c := 0; c < row(r); c++ {
				w = append(w, sm.K(coef(r*mk.C+c)))
			}
			v = append(v, w)
		}
		return v
	case "VM":
		v := sm.VariableMatrix{}
		for r := 0; r < mk.R; r++ {
			w := []sm.Variable{}
			for c := 0; c < row(r); c++ {
				w = append(w, variable(r*mk.C+c))
			}
			v = append(v, w)
		}
		return v
	case "MM":
		v := sm.MonomialMatrix{}
		for r := 0; r < mk.R; r++ {
			w := []sm.Monomial{}
			for c := 0; c < row(r); c++ {
				w = append(w, mon(r*mk.C+c))
			}
			v = append(v, w)
		}
		return v
	case "PM":
		v := sm.PolynomialMatrix{}
		for r := 0; r < mk.R; r++ {
			w := []sm.Polynomial{}
			for c := 0; c < row(r); c++ {
				w = append(w, pol(r*mk.C+c))
			}
			v = append(v, w)
		}
		return v
	}
	panic("driver: unknown kind " + mk.K)
}

// asView decides (from the numbers alone, so that the same literal is built in
// the same way each time) whether a numeric array is made as a view of a part
// of a larger one; its numbers are then not adjacent in memory.
func asView(d []float64) bool {
	var h uint64 = uint64(len(d))
	for _, x := range d {
		h = (h ^ math.Float64bits(x)>>32) * 1099511628211
		h ^= h >> 29
	}
	return h%3 != 0
}

// larger holds d, as an r x c array, from row 1 and column 1 on; the places
// around it hold NaN, which no result may ever show.
func larger(r, c int, d []float64) *mat.Dense {
	m := mat.NewDense(r+3, c+2, nil)
	for i := 0; i < r+3; i++ {
		for j := 0; j < c+2; j++ {
			m.Set(i, j, math.NaN())
		}
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			m.Set(1+i, 1+j, d[i*c+j])
		}
	}
	return m
}
