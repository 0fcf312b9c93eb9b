package main

import (
	"fmt"
	"regexp"
	"strconv"

	"github.com/MatProGo-dev/SymbolicMath.go/smErrors"
	sm "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// Why is the reason a call gave for refusing: the kind of error value, the
// numbers it holds, the numbers of its text (none: not looked at), and the
// kind of the value it is about.
type Why struct {
	W string `json:"w"`
	N []int  `json:"n"`
	T []int  `json:"t"`
	K string `json:"k"`
}

var noWhy = Why{N: []int{}, T: []int{}}

var number = regexp.MustCompile(`(^|[^A-Za-z0-9_.\]])(-?[0-9]+)`)

func numbersOf(s string) []int {
	out := []int{}
	for _, m := range number.FindAllStringSubmatch(s, -1) {
		if n, err := strconv.Atoi(m[2]); err == nil {
			out = append(out, n)
		}
	}
	return out
}

func dimsOf(x interface{ Dims() []int }) (out []int) {
	defer func() {
		if recover() != nil {
			out = []int{-1, -1}
		}
	}()
	return append([]int{}, x.Dims()...)
}

// whyOf classifies the value of a panic, or an error returned.
func whyOf(x interface{}) (w Why) {
	w = noWhy
	err, ok := x.(error)
	if !ok {
		w.W = "text"
		return
	}
	w.W = "other"
	text := true
	switch e := err.(type) {
	case smErrors.MatrixDimensionError:
		w.W, w.N = "dim", append(dimsOf(e.Arg1), dimsOf(e.Arg2)...)
	case smErrors.VectorDimensionError:
		w.W, w.N = "dim", append(dimsOf(e.Arg1), dimsOf(e.Arg2)...)
		text = false
		func() {
			defer func() { recover() }()
			t := numbersOf(err.Error())
			if len(t) == 2 { // the lengths alone
				w.T = []int{t[0], 1, t[1], 1}
			} else {
				w.T = t
			}
		}()
	case smErrors.InvalidVectorIndexError:
		w.W, w.N = "vidx", append([]int{e.Index}, dimsOf(e.Expression)...)
	case smErrors.InvalidMatrixIndexError:
		w.W, w.N = "midx", append([]int{e.RowIndex, e.ColIndex}, dimsOf(e.Expression)...)
	case smErrors.NegativeExponentError:
		w.W, w.N = "neg", []int{e.Exponent}
	case smErrors.MatrixColumnMismatchError:
		w.W, w.N = "cols", []int{e.ExpectedNColumns, e.ActualNColumns, e.Row}
	case smErrors.LinearExpressionRequiredError:
		w.W, text = "nonlin", false
	case smErrors.EqualityConstraintRequiredError:
		w.W, text = "noteq", false
	case smErrors.InequalityConstraintRequiredError:
		w.W, text = "notineq", false
	case smErrors.CanNotGetLinearCoeffOfConstantError:
		w.W, text = "novars", false
	case smErrors.EmptyLinearCoeffsError:
		w.W, text = "nolist", false
	case smErrors.EmptyVectorError:
		w.W, text = "emptyv", false
	case smErrors.EmptyMatrixError:
		w.W, text = "emptym", false
	case smErrors.UnsupportedInputError:
		w.W, w.K, text = "unsup", typeCode(e.Input), false
	default:
		text = false
	}
	if text {
		func() {
			defer func() {
				if recover() != nil {
					w.T = []int{}
				}
			}()
			w.T = numbersOf(err.Error())
		}()
	}
	return
}

func typeCode(x interface{}) string {
	switch x.(type) {
	case float64:
		return "f64"
	case int:
		return "int"
	case mat.VecDense:
		return "VD"
	case *mat.VecDense:
		return "pVD"
	case mat.Dense:
		return "D"
	case *mat.Dense:
		return "pD"
	case sm.K:
		return "K"
	case sm.Variable:
		return "Var"
	case sm.Monomial:
		return "Mon"
	case sm.Polynomial:
		return "Pol"
	case sm.KVector:
		return "KV"
	case sm.VariableVector:
		return "VV"
	case sm.MonomialVector:
		return "MV"
	case sm.PolynomialVector:
		return "PV"
	case sm.KMatrix:
		return "KM"
	case sm.VariableMatrix:
		return "VM"
	case sm.MonomialMatrix:
		return "MM"
	case sm.PolynomialMatrix:
		return "PM"
	case sm.ScalarConstraint:
		return "SC"
	case sm.VectorConstraint:
		return "VC"
	case sm.MatrixConstraint:
		return "MC"
	}
	return fmt.Sprintf("%T", x)
}
