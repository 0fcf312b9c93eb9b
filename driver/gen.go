package main

import (
	"fmt"
	"math"
	"math/rand"
)

// Generation of scenarios.  A scenario is generated while it runs, so that
// later calls use what earlier calls returned; the steps are recorded and can
// be replayed.  Everything is a function of (seed, family, program number).

var scalarKinds = []string{"K", "Var", "Mon", "Pol"}
var vectorKinds = []string{"KV", "VV", "MV", "PV"}
var matrixKinds = []string{"KM", "VM", "MM", "PM"}
var exprKinds = append(append(append([]string{}, scalarKinds...), vectorKinds...), matrixKinds...)
var otherKinds = append(append([]string{}, exprKinds...), "f64", "int", "VD", "pVD", "D", "pD")

func isIn(k string, ks []string) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

func isScalarLike(k string) bool { return isIn(k, scalarKinds) || k == "f64" || k == "int" }
func isVectorLike(k string) bool { return isIn(k, vectorKinds) || k == "VD" || k == "pVD" }
func isMatrixLike(k string) bool { return isIn(k, matrixKinds) || k == "D" || k == "pD" }
func isConstKind(k string) bool {
	return isIn(k, []string{"K", "KV", "KM", "f64", "int", "VD", "pVD", "D", "pD"})
}
func isVarKind(k string) bool { return isIn(k, []string{"Var", "VV", "VM"}) }
func isMonKind(k string) bool { return isIn(k, []string{"Mon", "MV", "MM"}) }

// info summarises what is known about a register.
type info struct {
	kind          string
	r, c          int
	L             int64 // numerator norm over the common denominator 2^K
	K             int
	deg           int
	N             int64 // largest numerator
	T             int   // largest number of terms of an entry
	mal, irr, con bool
	canon         bool
	vars          map[int]bool
	l, rr         *info
	sense         string
}

func infoE(o EObs) info {
	n := info{kind: o.K, r: o.R, c: o.C, mal: o.Mal, irr: o.Irr || o.Bad, vars: map[int]bool{}, canon: true}
	for _, e := range o.E {
		for _, t := range e {
			if _, k, _ := numerator(t); k > n.K {
				n.K = k
			}
		}
	}
	for _, e := range o.E {
		var L float64
		if len(e) > n.T {
			n.T = len(e)
		}
		seen := map[[maxNS]int]bool{}
		for _, t := range e {
			y, k, ok := numerator(t)
			if y < 0 {
				y = -y
			}
			if !ok {
				y = lim.L
			}
			if y > n.N {
				n.N = y
			}
			if y != 0 {
				L += float64(y) * math.Pow(2, float64(n.K-k))
			}
			d := 0
			var key [maxNS]int
			for i, z := range t.([]interface{})[2].([]int) {
				d += z
				key[i] = z
				if z > 0 {
					n.vars[i+1] = true
				}
			}
			if seen[key] || (y == 0 && (len(e) > 1 || d > 0)) {
				n.canon = false
			}
			seen[key] = true
			if d > n.deg {
				n.deg = d
			}
		}
		if l := within(L); l > n.L {
			n.L = l
		}
	}
	return n
}

// within is the norm l, or the limit when it is beyond it.
func within(l float64) int64 {
	if l >= float64(lim.L) {
		return lim.L
	}
	return int64(l)
}

func infoOf(x interface{}) info {
	switch o := x.(type) {
	case EObs:
		return infoE(o)
	case CObs:
		l, rr := infoE(o.L), infoE(o.RR)
		n := info{kind: o.K, con: true, r: l.r, c: l.c, l: &l, rr: &rr, sense: o.S,
			mal: l.mal || rr.mal || o.S == "?", irr: l.irr || rr.irr, vars: map[int]bool{}}
		if l.r == 1 && l.c == 1 {
			n.r, n.c = rr.r, rr.c
		}
		for v := range l.vars {
			n.vars[v] = true
		}
		for v := range rr.vars {
			n.vars[v] = true
		}
		n.deg = l.deg
		if rr.deg > n.deg {
			n.deg = rr.deg
		}
		n.canon = l.canon && rr.canon
		s := sumNorm(l, rr)
		n.L, n.K, n.T = s.L, s.K, l.T+rr.T
		return n
	}
	return info{}
}

// limits keep what a program computes exact in float64, and its size within
// what TLC can handle.
type limits struct {
	L   int64 // numerators, over the common denominator
	K   int   // denominators: 2^K
	deg int
	T   int // terms of an entry
}

var (
	normalLimits = limits{L: 1 << 28, K: 20, deg: 10, T: 60}
	wideLimits   = limits{L: 1 << 52, K: 250, deg: 24, T: 60}
	lim          = normalLimits
)

// setLimits chooses the limits a program needs.
func setLimits(wide string) {
	switch wide {
	case "wide":
		lim = wideLimits
	case "long":
		lim = normalLimits
		lim.deg = 40
		lim.L = 1 << 40
		lim.T = 150
	default:
		lim = normalLimits
	}
}

func small(n info) bool { return n.L < lim.L && n.K <= lim.K && n.T <= lim.T && n.deg <= lim.deg }

func sumNorm(a, b info) info {
	k := a.K
	if b.K > k {
		k = b.K
	}
	d := a.deg
	if b.deg > d {
		d = b.deg
	}
	l := float64(a.L)*math.Pow(2, float64(k-a.K)) + float64(b.L)*math.Pow(2, float64(k-b.K))
	return info{L: within(l), K: k, T: a.T + b.T, deg: d}
}

func mulNorm(a, b info, inner int) info {
	l := float64(a.L) * float64(b.L) * float64(inner)
	return info{L: within(l), K: a.K + b.K, T: a.T * b.T * inner, deg: a.deg + b.deg}
}

// monomials is the number of monomials of degree at most d in n variables.
func monomials(n, d int) int {
	t := 1
	for i := 1; i <= n; i++ {
		if t = t * (d + i) / i; t > 1<<20 {
			break
		}
	}
	return t
}

func powNorm(a info, n, inner int) info {
	out := info{L: 1, T: 1}
	for i := 0; i < n; i++ {
		out = mulNorm(out, a, inner)
		if t := monomials(len(a.vars), out.deg); inner == 1 && t < out.T { // like terms combine
			out.T = t
		}
		if !small(out) {
			return out
		}
	}
	return out
}

func one64(n info) info {
	if l := within(math.Pow(2, float64(n.K))); n.L < l {
		n.L = l
	}
	if n.T < 1 {
		n.T = 1
	}
	return n
}

// Gen generates one program.
type Gen struct {
	*rand.Rand
	r     *Runner
	fam   Family
	nv    int
	pool  [][][2]int // factor lists shared by the literals of the program
	calls int
	ints  bool // integer coefficients only
	wide  int  // larger coefficients, finer or tiny fractions, larger shapes, longer lists
	mixed bool // tiny and ordinary coefficients side by side
	grade int  // of the literal under construction
	many  bool // many variables
	scale int  // tiny: coefficients are of the order of 2^-scale
}

const (
	wideBig = iota + 1
	wideFine
	wideShape
	wideTiny
	wideLong
	wideNear
	wideFull
)

// families most of whose calls compute nothing, so that any number will do
var fullFamilies = map[string]bool{"place": true, "convert": true, "print": true, "compare": true, "query": true, "pure": true, "ident": true, "valid": true}

var full = []float64{0.1, 0.2, 0.3, 1.0 / 3, 2.0 / 3, math.Pi, math.E, 1e-7, 1e-9, 123.456, 1e15, 1e16, 1e20, 1e21, 6.02214076e23,
	math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e100, 1e-100, 9007199254740993, 4503599627370497.5, 299792458.123}

// any is any finite number.
func (g *Gen) any() [2]int {
	x := full[g.Intn(len(full))]
	if g.chance(0.4) {
		x = math.Ldexp(1+g.Float64(), g.Intn(120)-60)
	}
	if g.chance(0.4) {
		x = -x
	}
	m, e := math.Frexp(x)
	n, k := int(math.Ldexp(m, 53)), 53-e
	for n%2 == 0 && k > 0 {
		n, k = n/2, k-1
	}
	for k < 0 && n < 1<<60 && n > -1<<60 { // an integer
		n, k = 2*n, k+1
	}
	return [2]int{n, k}
}

// families whose programs compute with expressions only
var exprFamilies = map[string]bool{"scalar": true, "array": true, "deriv": true, "subst": true, "submap": true,
	"simp": true, "query": true, "place": true, "convert": true, "print": true, "compare": true}

// Family is a mix of operations.
type Family struct {
	Name   string
	Ops    []W
	Calls  int     // number of calls aimed at
	XEnv   float64 // probability of several environments with coinciding identifiers
	Mal    float64 // probability of a malformed operand
	Cap    float64 // probability that a literal shares backing arrays
	Reuse  float64 // probability of using an earlier value as operand
	NonCan float64 // probability that a literal has like or zero terms
	Again  float64 // probability of repeating an earlier call
	Check  func(g *Gen)
}

// W is a weighted operation.
type W struct {
	Op string
	W  int
}

func (g *Gen) chance(p float64) bool { return g.Float64() < p }

func (g *Gen) kind(ks []string) string { return ks[g.Intn(len(ks))] }

func (g *Gen) info(reg int) info {
	a, ok := g.r.idmap[reg]
	if !ok {
		return info{mal: true}
	}
	return infoOf(g.r.obs[a-1])
}

func (g *Gen) do(s Step) *Event {
	ev := g.r.step(s)
	if ev != nil && s.Op != "mk" {
		g.calls++
	}
	return ev
}

// last returns the register of the latest result, or 0.
func (g *Gen) last(ev *Event) int {
	if ev == nil || len(ev.Res) == 0 {
		return 0
	}
	return g.r.prog.Steps[len(g.r.prog.Steps)-1].O
}

var bigs = []int{10, 12, 25, 99, 100, 128, 999, 1000, 4096, 10000, 65536, 123456, 1000000, 1234567}

// beyond what a float32 holds
var huge = []int{16777217, 20000001, 33554433, 99999999, 123456789, 4294967297, 1<<40 + 1, 1234567890123}

// near is a number close to n, but not n.
func (g *Gen) near(n int) [2]int {
	return [2]int{n<<uint(g.scale) + 2*g.Intn(2) - 1, g.scale}
}

// around is n, or in some programs a number close to it.
func (g *Gen) around(n int) [2]int {
	if g.wide == wideNear && g.chance(0.4) {
		return g.near(n)
	}
	return [2]int{n, 0}
}

func (g *Gen) coef() [2]int {
	if g.wide == wideBig && g.chance(0.35) {
		n := bigs[g.Intn(len(bigs))]
		if g.chance(0.5) {
			n = bigs[g.Intn(7)]
		} else if exprFamilies[g.fam.Name] && g.chance(0.4) {
			n = huge[g.Intn(len(huge))]
		}
		if g.chance(0.4) {
			n = -n
		}
		return [2]int{n, 0}
	}
	if g.wide == wideTiny && !g.ints && g.grade > 0 {
		return [2]int{2*g.Intn(9) - 9, g.grade + g.Intn(3)}
	}
	if g.wide == wideFull && !g.ints && g.chance(0.45) {
		return g.any()
	}
	if g.wide == wideNear && !g.ints && g.chance(0.45) {
		return g.near(g.Intn(9)/2 - 2)
	}
	if g.wide == wideFine && !g.ints && g.chance(0.4) {
		return [2]int{2*g.Intn(12) - 11, 3 + g.Intn(6)}
	}
	switch x := g.Intn(100); {
	case x < 8:
		return [2]int{0, 0}
	case x < 28:
		return [2]int{1, 0}
	case x < 42:
		return [2]int{-1, 0}
	case x < 80 || g.ints:
		n := g.Intn(11) - 5
		if n == 0 {
			n = 7
		}
		return [2]int{n, 0}
	default:
		k := 1 + g.Intn(2)
		n := 2*g.Intn(5) - 5
		return [2]int{n, k}
	}
}

func (g *Gen) coefNZ() [2]int {
	for {
		if c := g.coef(); c[0] != 0 {
			return c
		}
	}
}

func (g *Gen) v() int { return 1 + g.Intn(g.nv) }

func (g *Gen) factors() [][2]int {
	if len(g.pool) > 0 && g.chance(0.5) {
		return g.shuffleF(g.pool[g.Intn(len(g.pool))])
	}
	n := 0
	switch x := g.Intn(20); {
	case x < 3:
		n = 0
	case x < 11:
		n = 1
	case x < 17:
		n = 2
	case x < 19:
		n = 3
	default:
		n = 4
	}
	if g.wide == wideLong && g.chance(0.15) {
		n = 5 + g.Intn(3)
	}
	if g.many && g.chance(0.2) {
		n = 5 + g.Intn(g.nv-4)
	}
	if n > g.nv {
		n = g.nv
	}
	perm := g.Perm(g.nv)
	out := [][2]int{}
	for i := 0; i < n; i++ {
		e := 1
		switch x := g.Intn(20); {
		case x < 12:
		case x < 17:
			e = 2
		case x < 19:
			e = 3
		default:
			e = 5
		}
		if g.wide == wideShape && n <= 2 && g.chance(0.15) {
			e = 4 + g.Intn(9)
		}
		if g.wide == wideLong && g.chance(0.1) {
			e = 4 + g.Intn(20)
			out = append(out, [2]int{perm[i] + 1, e})
			continue
		}
		if n >= 3 && e > 2 {
			e = 2
		}
		out = append(out, [2]int{perm[i] + 1, e})
	}
	return out
}

func (g *Gen) shuffleF(f [][2]int) [][2]int {
	out := append([][2]int{}, f...)
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func sameF(a, b [][2]int) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[[2]int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return true
}

func (g *Gen) term() TermMk {
	return TermMk{C: g.coef(), F: g.factors()}
}

func (g *Gen) poly() []TermMk {
	n := 1 + g.Intn(4)
	if g.wide == wideShape && g.chance(0.2) {
		n = 5 + g.Intn(5)
	}
	if g.wide == wideLong && g.chance(0.3) {
		n = 5 + g.Intn(14)
	}
	if g.many && g.chance(0.2) {
		n = 10 + g.Intn(25)
	}
	noncan := g.chance(g.fam.NonCan)
	if g.mixed {
		noncan = false
	}
	out := []TermMk{}
	for i := 0; i < n; i++ {
		if g.mixed {
			g.grade = g.Intn(2) * g.scale
		}
		t := g.term()
		if noncan && len(out) > 0 && g.chance(0.5) {
			t.F = g.shuffleF(out[g.Intn(len(out))].F)
			if g.chance(0.4) {
				c := out[len(out)-1].C
				t.C = [2]int{-c[0], c[1]}
			}
		}
		if !noncan {
			dup := t.C[0] == 0
			for _, u := range out {
				dup = dup || sameF(u.F, t.F)
			}
			if dup {
				continue
			}
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		out = []TermMk{{C: [2]int{0, 0}, F: [][2]int{}}}
		if g.chance(0.6) {
			out[0].C = g.coefNZ()
		}
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// entry makes the terms of one entry of a value of kind k.
func (g *Gen) entry(k string) []TermMk {
	switch {
	case isConstKind(k):
		c := g.coef()
		if k == "int" {
			c[1] = 0
		}
		return []TermMk{{C: c, F: [][2]int{}}}
	case isVarKind(k):
		return []TermMk{{C: [2]int{1, 0}, F: [][2]int{{g.v(), 1}}}}
	case isMonKind(k):
		t := g.term()
		if t.C[0] == 0 && !g.chance(0.5) {
			t.C = g.coefNZ()
		}
		if t.C[0] == 0 && !g.chance(g.fam.NonCan) {
			t.F = [][2]int{}
		}
		return []TermMk{t}
	default:
		return g.poly()
	}
}

const nForms = 6

// formed makes an entry of one of several forms (0: any).
func (g *Gen) formed(k string, form int) []TermMk {
	constant := func() TermMk { return TermMk{C: g.coefNZ(), F: [][2]int{}} }
	variable := func() TermMk { return TermMk{C: [2]int{1, 0}, F: [][2]int{{g.v(), 1}}} }
	switch form {
	case 1: // a constant
		return []TermMk{constant()}
	case 2: // a variable
		return []TermMk{variable()}
	case 3: // a multiple of a variable
		t := variable()
		t.C = g.coefNZ()
		return []TermMk{t}
	case 4: // zero
		return []TermMk{{C: [2]int{0, 0}, F: [][2]int{}}}
	case 5: // an affine expression
		t := variable()
		t.C = g.coefNZ()
		if isMonKind(k) {
			return []TermMk{t}
		}
		ts := []TermMk{t, constant()}
		if g.chance(0.3) {
			ts[0], ts[1] = ts[1], ts[0]
		}
		return ts
	}
	return g.entry(k)
}

func fit(k string, r, c int) (int, int) {
	if isScalarLike(k) {
		return 1, 1
	}
	if isVectorLike(k) {
		return r, 1
	}
	return r, c
}

func (g *Gen) lit(k string, r, c int) *Mk {
	r, c = fit(k, r, c)
	mk := &Mk{K: k, R: r, C: c}
	if g.wide == wideTiny {
		g.grade, g.mixed = g.Intn(2)*g.scale, g.chance(0.15)
	}
	// arrays with entries of different forms, or of one form but for one entry
	forms := make([]int, r*c)
	if r*c > 1 && (isMonKind(k) || k == "PV" || k == "PM") {
		switch x := g.Intn(20); {
		case x < 4:
			for i := range forms {
				forms[i] = g.Intn(nForms)
			}
		case x < 10:
			f := 1 + g.Intn(nForms-1)
			for i := range forms {
				forms[i] = f
			}
			forms[g.Intn(len(forms))] = g.Intn(2) * g.Intn(nForms)
			if len(forms) > 2 && g.chance(0.5) {
				forms[g.Intn(len(forms))] = g.Intn(nForms)
			}
		}
	}
	if isConstKind(k) && r*c > 1 && g.chance(0.2) {
		// mostly zeros or ones
		at, v := g.Intn(r*c), g.Intn(2)
		for i := 0; i < r*c; i++ {
			e := [2]int{v, 0}
			if i == at || g.chance(0.15) {
				e = g.entry(k)[0].C
			}
			mk.E = append(mk.E, []TermMk{{C: e, F: [][2]int{}}})
		}
	} else {
		for i := 0; i < r*c; i++ {
			mk.E = append(mk.E, g.formed(k, forms[i]))
		}
	}
	g.grade, g.mixed = 0, false
	if g.chance(g.fam.Cap) {
		mk.Cap = 1
	}
	return mk
}

func (g *Gen) mk(m *Mk) int { return g.last(g.do(Step{Op: "mk", Mk: m})) }

var badOf = map[string][]string{
	"Var": {"bounds"}, "Mon": {"exp"}, "Pol": {"nil", "exp"},
	"KV": {"empty"}, "VV": {"bounds", "empty"}, "MV": {"exp", "empty"}, "PV": {"nil", "exp", "empty"},
	"KM": {"ragged", "empty"}, "VM": {"bounds", "ragged", "empty"},
	"MM": {"exp", "ragged", "empty"}, "PM": {"nil", "exp", "ragged", "empty"},
}

// malformed makes a malformed value of kind k, or 0.
func (g *Gen) malformed(k string, r, c int) int {
	bs := badOf[k]
	if len(bs) == 0 {
		return 0
	}
	b := bs[g.Intn(len(bs))]
	if b == "ragged" && r < 2 {
		r = 2
	}
	if b == "ragged" && c < 2 {
		c = 2
	}
	mk := g.lit(k, r, c)
	mk.Cap = 0
	if b == "empty" {
		mk.R, mk.C, mk.E = 0, 0, nil
		if isVectorLike(k) {
			mk.C = 1
		}
		return g.mk(mk)
	}
	mk.Bad = b
	if b == "ragged" {
		mk.At = 1 + g.Intn(mk.R-1)
	} else {
		mk.At = g.Intn(len(mk.E))
	}
	return g.mk(mk)
}

// pick returns a register of kind k and shape (r, c): an earlier value or a
// new literal.
func (g *Gen) pick(k string, r, c int) int {
	r, c = fit(k, r, c)
	if g.chance(g.fam.Mal) {
		if x := g.malformed(k, r, c); x > 0 {
			return x
		}
	}
	if g.chance(g.fam.Reuse) {
		if x := g.find(func(n info) bool { return !n.con && n.kind == k && n.r == r && n.c == c }); x > 0 {
			return x
		}
	}
	if g.chance(0.15) {
		if x := g.related(k, r, c); x != nil {
			return g.mk(x)
		}
	}
	return g.mk(g.lit(k, r, c))
}

// find returns an earlier well-formed register with the given property, or 0.
func (g *Gen) find(ok func(info) bool) int {
	var cand []int
	for id := 1; id < g.r.fresh; id++ {
		n := g.info(id)
		if !n.mal && !n.irr && ok(n) {
			cand = append(cand, id)
		}
	}
	if len(cand) == 0 {
		return 0
	}
	return cand[g.Intn(len(cand))]
}

// related makes a literal of kind k whose terms are those of an earlier value,
// reordered, with some signs and coefficients changed.
func (g *Gen) related(k string, r, c int) *Mk {
	if isConstKind(k) || isVarKind(k) {
		return nil
	}
	id := g.find(func(n info) bool { return !n.con && small(n) && n.T <= 8 && n.deg <= 6 })
	if id == 0 {
		return nil
	}
	o := g.r.obs[g.r.idmap[id]-1].(EObs)
	mk := &Mk{K: k, R: r, C: c}
	for i := 0; i < r*c; i++ {
		var ts []TermMk
		for _, t := range o.E[i%len(o.E)] {
			x := t.([]interface{})
			f := [][2]int{}
			for s, e := range x[2].([]int) {
				if e > 0 && s+1 < NS {
					f = append(f, [2]int{s + 1, e})
				}
			}
			y, k, ok := numerator(t)
			cc := [2]int{int(y), k}
			if !ok {
				cc = g.coefNZ()
			}
			switch g.Intn(4) {
			case 0, 1:
				cc[0] = -cc[0]
			case 2:
				if g.wide != wideTiny {
					cc = g.coefNZ()
				}
			}
			ts = append(ts, TermMk{C: cc, F: g.shuffleF(f)})
		}
		g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		if isMonKind(k) {
			ts = ts[:1]
		}
		mk.E = append(mk.E, ts)
	}
	return mk
}

func (g *Gen) dim() int {
	switch x := g.Intn(20); {
	case x < 3:
		return 1
	case x < 12:
		return 2
	case x < 18:
		return 3
	case g.wide == wideShape || g.chance(0.3):
		return 4 + g.Intn(4)
	case g.wide == wideLong:
		return 4 + g.Intn(10)
	default:
		return 4
	}
}

// sumShapes chooses shapes for two operands combined entrywise.
func (g *Gen) sumShapes(k1, k2 string) (r1, c1, r2, c2 int) {
	r, c := g.dim(), g.dim()
	if c > 3 {
		c = 3
	}
	if (isVectorLike(k1) || isVectorLike(k2)) && g.chance(0.85) {
		c = 1
	}
	r1, c1, r2, c2 = r, c, r, c
	if g.chance(0.14) {
		switch g.Intn(6) {
		case 0:
			r2++
		case 1:
			r1++
		case 2:
			c2++
		case 3:
			c1++
		case 4:
			r1, c1 = 1, 1
		case 5:
			r2, c2 = 1, 1
		}
	}
	return
}

func (g *Gen) mulShapes(k1, k2 string) (r1, c1, r2, c2 int) {
	a, b, c := g.dim(), g.dim(), g.dim()
	if a > 3 {
		a = 2
	}
	if c > 3 {
		c = 2
	}
	switch {
	case isVectorLike(k1) && isVectorLike(k2):
		if g.chance(0.6) {
			return a, 1, 1, 1
		}
		if g.chance(0.5) {
			return a, 1, a, 1
		}
		return a, 1, b, 1
	case isVectorLike(k1) && isMatrixLike(k2):
		if g.chance(0.75) {
			return a, 1, 1, c
		}
		return a, 1, a, c
	}
	r1, c1, r2, c2 = a, b, b, c
	if g.chance(0.14) {
		switch g.Intn(5) {
		case 0:
			r2++
		case 1:
			c1++
		case 2:
			r2 = c1 + 1
			c2 = 1
		case 3:
			r1, c1 = 1, 1
		case 4:
			r2, c2 = 1, 1
		}
	}
	return
}

// anyExpr picks an expression of any kind.
// varied makes an array of several entries that may be of different forms.
func (g *Gen) varied() int {
	return g.pick([]string{"MV", "PV", "PV", "PV", "MM", "PM"}[g.Intn(6)], 2+g.Intn(5), 1+g.Intn(2))
}

func (g *Gen) anyExpr() int {
	if g.chance(g.fam.Reuse) {
		if x := g.find(func(n info) bool { return !n.con && isIn(n.kind, exprKinds) && small(n) }); x > 0 {
			return x
		}
	}
	return g.pick(g.kind(exprKinds), g.dim(), g.dim())
}

func (g *Gen) anyOf(ks []string) int { return g.pick(g.kind(ks), g.dim(), g.dim()) }

// call performs one operation of the family on operands chosen for it.
func (g *Gen) call(op string) *Event {
	switch op {
	case "plus", "minus", "mul", "splus", "sminus", "smul", "aplus", "aminus", "amul":
		rk, ok := exprKinds, otherKinds
		o := op
		switch op[0] {
		case 's':
			rk, ok, o = scalarKinds, []string{"K", "Var", "Mon", "Pol", "K", "Var", "Mon", "Pol", "f64", "int"}, op[1:]
		case 'a':
			rk, o = exprKinds, op[1:]
		}
		k1, k2 := g.kind(rk), g.kind(ok)
		if op[0] == 'a' && isScalarLike(k1) && isScalarLike(k2) {
			k1 = g.kind(append(vectorKinds, matrixKinds...))
		}
		var r1, c1, r2, c2 int
		if o == "mul" {
			r1, c1, r2, c2 = g.mulShapes(k1, k2)
		} else {
			r1, c1, r2, c2 = g.sumShapes(k1, k2)
		}
		a := g.pick(k1, r1, c1)
		b := g.pick(k2, r2, c2)
		if g.chance(0.06) && isIn(k2, exprKinds) {
			b = a
		}
		x, y := g.info(a), g.info(b)
		var n info
		if o == "mul" {
			n = mulNorm(x, y, max(1, x.c))
		} else {
			n = sumNorm(x, y)
		}
		if !small(n) && !x.mal && !y.mal {
			return nil
		}
		if o == "minus" && isIn(k2, exprKinds) && g.chance(0.3) {
			o = "minusfn"
		}
		return g.do(Step{Op: o, A: []int{a, b}})
	case "pow", "spow", "apow":
		ks := exprKinds
		if op == "spow" {
			ks = scalarKinds
		} else if op == "apow" {
			ks = append(append([]string{}, matrixKinds...), matrixKinds...)
			ks = append(ks, vectorKinds...)
		}
		k := g.kind(ks)
		d := g.dim()
		c := d
		if g.chance(0.12) {
			c = d + 1
		}
		if isVectorLike(k) && g.chance(0.5) {
			d = 1
		}
		e := g.Intn(5)
		if g.chance(0.08) {
			e = -1 - g.Intn(2)
		}
		if isScalarLike(k) && g.chance(0.15) {
			e = 5 + g.Intn(8)
		}
		a := g.pick(k, d, c)
		x := g.info(a)
		if isScalarLike(k) && g.chance(0.1) { // the largest there is
			e = 7 + g.Intn(14)
		}
		for e > 0 && !small(powNorm(x, e, max(1, x.c))) {
			e--
		}
		return g.do(Step{Op: "pow", A: []int{a}, N: []int{e}})
	case "tr":
		return g.do(Step{Op: "tr", A: []int{g.anyExpr()}})
	case "deriv":
		a := g.anyExpr()
		x := g.info(a)
		if l := float64(x.deg + 1); within(float64(x.L)*l) == lim.L && (!x.canon || within(float64(x.N)*l) == lim.L) {
			return nil
		}
		return g.do(Step{Op: "deriv", A: []int{a}, V: []int{g.occurring(x)}})
	case "subst":
		a := g.anyExpr()
		x := g.info(a)
		v := g.occurring(x)
		b := g.pick(g.kind(scalarKinds), 1, 1)
		if g.chance(0.25) { // replacement mentioning the variable itself
			b = g.mk(&Mk{K: "Pol", R: 1, C: 1, E: [][]TermMk{{
				{C: g.coefNZ(), F: [][2]int{{v, 1}}}, {C: g.coefNZ(), F: [][2]int{}}}}})
		}
		if !g.substOK(x, []int{b}) {
			return nil
		}
		return g.do(Step{Op: "subst", A: []int{a, b}, V: []int{v}})
	case "substmap":
		a := g.anyExpr()
		x := g.info(a)
		m, bad, ok := g.subMap(x)
		if !ok {
			return nil
		}
		return g.do(Step{Op: "substmap", A: []int{a}, M: m, S: bad})
	case "at":
		a := g.anyExpr()
		x := g.info(a)
		return g.do(Step{Op: "at", A: []int{a}, N: []int{g.index(x.r), g.index(x.c)}})
	case "atvec":
		a := g.anyOf(vectorKinds)
		return g.do(Step{Op: "atvec", A: []int{a}, N: []int{g.index(g.info(a).r)}})
	case "simp":
		return g.do(Step{Op: "simp", A: []int{g.anyExpr()}})
	case "simplify":
		return g.do(Step{Op: "simplify", A: []int{g.anyOf([]string{"Pol", "PV", "PM"})}})
	case "hstack", "vstack":
		n := 1 + g.Intn(3)
		if g.chance(0.04) {
			n = 0
		}
		d := g.dim()
		if g.wide == wideLong && g.chance(0.4) {
			n, d = 4+g.Intn(6), 1+g.Intn(2)
		}
		var as []int
		for i := 0; i < n; i++ {
			e := g.dim()
			k := g.kind(exprKinds)
			r, c := d, e
			if op == "vstack" {
				r, c = e, d
			}
			if g.wide == wideLong && n > 4 && g.chance(0.7) {
				k = g.kind(append(append([]string{}, scalarKinds...), vectorKinds...))
			}
			if op == "hstack" && isScalarLike(k) && d != 1 && g.chance(0.8) {
				k = g.kind(matrixKinds)
			}
			if op == "vstack" && !isMatrixLike(k) && d != 1 && g.chance(0.8) {
				k = g.kind(matrixKinds)
			}
			if g.chance(0.05) {
				r++
			}
			if g.chance(0.05) {
				c++
			}
			as = append(as, g.pick(k, r, c))
		}
		return g.do(Step{Op: op, A: as})
	case "conce":
		return g.do(Step{Op: "conce", A: []int{g.anyOf(scalarKinds)}})
	case "concev", "concv":
		n := g.Intn(5)
		if n == 0 && !g.chance(0.3) {
			n = 2
		}
		if g.wide == wideLong && g.chance(0.5) {
			n = 5 + g.Intn(12)
		}
		if g.chance(0.15) {
			n = 5 + g.Intn(4)
		}
		var as []int
		for _, k := range g.kinds(n, scalarKinds) {
			as = append(as, g.pick(k, 1, 1))
		}
		return g.do(Step{Op: op, A: as})
	case "concem", "concm":
		r, c := g.dim(), g.dim()
		if c > 3 && r > 3 {
			r = 3
		}
		ns := []int{}
		for i := 0; i < r; i++ {
			ns = append(ns, c)
		}
		if g.chance(0.1) {
			ns[g.Intn(r)]++
		}
		if g.chance(0.04) {
			ns = []int{}
		}
		n := 0
		for _, l := range ns {
			n += l
		}
		var as []int
		for _, k := range g.kinds(n, scalarKinds) {
			as = append(as, g.pick(k, 1, 1))
		}
		return g.do(Step{Op: op, A: as, N: ns})
	case "conv":
		return g.conv(false)
	case "convpoke":
		return g.conv(true)
	case "copypoke":
		return g.copypoke()
	case "copy":
		return g.do(Step{Op: "copy", A: []int{g.anyOf([]string{"Mon", "Pol", "VV"})}})
	case "toscalars":
		return g.do(Step{Op: op, A: []int{g.anyOf(vectorKinds)}})
	case "check":
		if g.chance(0.3) {
			if c := g.constraint(""); c > 0 {
				return g.do(Step{Op: op, A: []int{c}})
			}
		}
		return g.do(Step{Op: op, A: []int{g.anyExpr()}})
	case "kindof": // classification of a constraint
		if c := g.constraint(""); c > 0 {
			return g.do(Step{Op: "preds", A: []int{c}})
		}
		return nil
	case "dims", "vars", "numvars", "varids", "islin", "isquad", "preds", "str":
		if op == "preds" && g.chance(0.4) {
			return g.do(Step{Op: op, A: []int{g.anyOf([]string{"f64", "VD", "D", "int", "pVD", "pD"})}})
		}
		if op != "str" && op != "preds" && g.chance(0.3) {
			return g.do(Step{Op: op, A: []int{g.varied()}})
		}
		return g.do(Step{Op: op, A: []int{g.anyExpr()}})
	case "len":
		return g.do(Step{Op: op, A: []int{g.anyOf(vectorKinds)}})
	case "degree":
		if g.chance(0.5) {
			return g.do(Step{Op: op, A: []int{g.varied()}})
		}
		return g.do(Step{Op: op, A: []int{g.anyOf([]string{"K", "Var", "Mon", "Pol", "KV", "VV", "MV", "PV", "KM", "VM", "MM", "PM"})}})
	case "const":
		return g.do(Step{Op: op, A: []int{g.anyExpr()}})
	case "lincoef":
		var a int
		if g.chance(0.6) {
			a = g.linear(g.kind(append(append([]string{}, scalarKinds...), vectorKinds...)), g.dim())
		} else {
			a = g.anyOf(append(append([]string{}, scalarKinds...), vectorKinds...))
		}
		n, v := g.wrt(g.info(a), false)
		return g.do(Step{Op: op, A: []int{a}, N: n, V: v})
	case "isconst":
		return g.do(Step{Op: op, A: []int{g.anyOf([]string{"Mon", "Pol", "MV", "PV"})}})
	case "iszero":
		return g.do(Step{Op: op, A: []int{g.anyOf([]string{"Mon"})}})
	case "isvar", "isdeg1":
		a := g.anyOf([]string{"Mon"})
		if g.chance(0.4) {
			a = g.linear("Mon", 1)
		}
		return g.do(Step{Op: op, A: []int{a}, V: []int{g.occurring(g.info(a))}})
	case "matches":
		a := g.anyOf([]string{"Mon"})
		b := g.anyOf([]string{"Mon"})
		if g.chance(0.6) {
			if mk := g.nearMon(a); mk != nil {
				b = g.mk(mk)
			}
		}
		return g.do(Step{Op: op, A: []int{a, b}})
	case "monidx":
		a := g.anyOf([]string{"Pol"})
		b := g.anyOf([]string{"Mon"})
		if g.chance(0.7) {
			if mk := g.nearMon(a); mk != nil {
				b = g.mk(mk)
			}
		}
		return g.do(Step{Op: op, A: []int{a, b}})
	case "varmonidx":
		a := g.anyOf([]string{"Pol"})
		return g.do(Step{Op: op, A: []int{a}, V: []int{g.occurring(g.info(a))}})
	case "constmonidx":
		return g.do(Step{Op: op, A: []int{g.anyOf([]string{"Pol"})}})
	case "issquare":
		k := g.kind(matrixKinds)
		d := g.dim()
		if g.chance(0.5) {
			return g.do(Step{Op: op, A: []int{g.pick(k, d, d)}})
		}
		return g.do(Step{Op: op, A: []int{g.pick(k, d, g.dim())}})
	case "unique":
		n := []int{}
		for i := g.long(8); i > 0; i-- {
			n = append(n, g.Intn(6))
		}
		return g.do(Step{Op: op, N: n})
	case "find":
		n := []int{}
		for i := g.long(7); i >= 0; i-- {
			n = append(n, g.Intn(5))
		}
		k := g.kind([]string{"int", "string", "uint64", "var", "var", "var"})
		if k != "var" {
			if g.chance(0.1) {
				k = "wrong"
			}
			return g.do(Step{Op: op, S: k, N: n})
		}
		v := []int{}
		for range n {
			v = append(v, g.v())
		}
		return g.do(Step{Op: op, S: k, V: v})
	case "uniq":
		n := g.long(7)
		v := []int{}
		for i := 0; i < n; i++ {
			v = append(v, g.v())
		}
		return g.do(Step{Op: op, V: v})
	case "union":
		ns, v := []int{}, []int{}
		for i := g.long(4); i > 0; i-- {
			l := g.long(4)
			ns = append(ns, l)
			for j := 0; j < l; j++ {
				v = append(v, g.v())
			}
		}
		return g.do(Step{Op: op, V: v, N: ns})
	}
	return g.callC(op)
}

// long is a number below n, or several times that.
func (g *Gen) long(n int) int {
	if g.wide == wideLong && g.chance(0.5) {
		return n + g.Intn(3*n)
	}
	return g.Intn(n)
}

func (g *Gen) subset(ks []string) []string {
	out := []string{}
	for _, k := range ks {
		if g.chance(0.6) {
			out = append(out, k)
		}
	}
	if len(out) == 0 {
		out = append(out, g.kind(ks))
	}
	return out
}

// kinds chooses n of the kinds: any, or one of them but for one or two places,
// or one followed by another.
func (g *Gen) kinds(n int, ks []string) []string {
	out := make([]string, n)
	some := g.subset(ks)
	for i := range out {
		out[i] = g.kind(some)
	}
	if n < 2 {
		return out
	}
	switch x := g.Intn(20); {
	case x < 8:
		k := g.kind(ks)
		for i := range out {
			out[i] = k
		}
		out[g.Intn(n)] = g.kind(ks)
		if g.chance(0.3) {
			out[g.Intn(n)] = g.kind(ks)
		}
	case x < 10:
		at, k, l := g.Intn(n), g.kind(ks), g.kind(ks)
		for i := range out {
			out[i] = k
			if i >= at {
				out[i] = l
			}
		}
	}
	return out
}

func (g *Gen) index(n int) int {
	if g.chance(0.1) {
		return []int{-1, n, n + 1}[g.Intn(3)]
	}
	if n <= 0 {
		return 0
	}
	return g.Intn(n)
}

// occurring picks a variable, most often one that occurs.
func (g *Gen) occurring(n info) int {
	var vs []int
	for v := 1; v < NS; v++ {
		if n.vars[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 || g.chance(0.2) {
		return g.v()
	}
	return vs[g.Intn(len(vs))]
}

func (g *Gen) substOK(x info, by []int) bool {
	if x.mal {
		return true
	}
	y := info{L: 1, T: 1, deg: 1}
	for _, b := range by {
		z := one64(g.info(b))
		if z.mal {
			return true
		}
		if z.L > y.L {
			y.L = z.L
		}
		if z.K > y.K {
			y.K = z.K
		}
		if z.T > y.T {
			y.T = z.T
		}
		if z.deg > y.deg {
			y.deg = z.deg
		}
	}
	if x.T < 1 {
		x.T = 1
	}
	if x.L < 1 {
		x.L = 1
	}
	return small(mulNorm(x, powNorm(y, x.deg, 1), 1))
}

// subMap builds a substitution map: constants, permutations, self-mentioning
// and mutually mentioning replacements.
func (g *Gen) subMap(x info) (m [][2]int, bad string, ok bool) {
	n := 1 + g.long(3)
	if g.chance(0.06) {
		n = 0
	}
	if n > g.nv {
		n = g.nv
	}
	perm := g.Perm(g.nv)
	mode := g.Intn(4)
	var by []int
	for i := 0; i < n; i++ {
		v := perm[i] + 1
		w := perm[(i+1)%n] + 1
		var b int
		switch mode {
		case 0: // cycle of variables
			b = g.mk(&Mk{K: "Var", R: 1, C: 1, E: [][]TermMk{{{C: [2]int{1, 0}, F: [][2]int{{w, 1}}}}}})
		case 1: // affine in the next and itself
			b = g.mk(&Mk{K: "Pol", R: 1, C: 1, E: [][]TermMk{{
				{C: g.coefNZ(), F: [][2]int{{w, 1}}}, {C: g.coefNZ(), F: [][2]int{}}}}})
		case 2:
			b = g.pick(g.kind([]string{"K", "Var", "Mon"}), 1, 1)
		default:
			b = g.pick(g.kind(scalarKinds), 1, 1)
		}
		if g.chance(0.03) {
			b = g.pick(g.kind(append(append([]string{}, vectorKinds...), matrixKinds...)), 2, 2)
		}
		by = append(by, b)
		m = append(m, [2]int{v, b})
	}
	if n > 0 && g.chance(0.02) {
		bad = "badkey"
	}
	return m, bad, g.substOK(x, by)
}

func (g *Gen) nearMon(a int) *Mk {
	o, ok := g.r.obs[g.r.idmap[a]-1].(EObs)
	if !ok || o.Mal || len(o.E) == 0 {
		return nil
	}
	e := o.E[g.Intn(len(o.E))]
	x := e[g.Intn(len(e))].([]interface{})
	f := [][2]int{}
	for s, y := range x[2].([]int) {
		if y > 0 && s+1 < NS {
			f = append(f, [2]int{s + 1, y})
		}
	}
	f = g.shuffleF(f)
	if len(f) > 0 && g.chance(0.4) {
		i := g.Intn(len(f))
		switch g.Intn(4) {
		case 0:
			f[i][1]++
		case 1: // exchange exponents
			j := g.Intn(len(f))
			f[i][1], f[j][1] = f[j][1], f[i][1]
		case 2:
			f = append(f[:i], f[i+1:]...)
		case 3:
			v := g.v()
			for _, y := range f {
				if y[0] == v {
					return nil
				}
			}
			f[i][0] = v
		}
	}
	return &Mk{K: "Mon", R: 1, C: 1, E: [][]TermMk{{{C: g.coefNZ(), F: f}}}}
}

// linear makes a value of degree at most one.
func (g *Gen) linear(k string, r int) int {
	r, c := fit(k, r, 1)
	mk := &Mk{K: k, R: r, C: c}
	for i := 0; i < r*c; i++ {
		mk.E = append(mk.E, g.linEntry(k))
	}
	return g.mk(mk)
}

func (g *Gen) linEntry(k string) []TermMk {
	switch {
	case isConstKind(k) || isVarKind(k):
		return g.entry(k)
	case isMonKind(k):
		f := [][2]int{}
		if g.chance(0.85) {
			f = append(f, [2]int{g.v(), 1})
		}
		return []TermMk{{C: g.coefNZ(), F: f}}
	}
	ts := []TermMk{}
	n := 1 + g.Intn(min(3, g.nv))
	if g.many && g.chance(0.3) {
		n = 4 + g.Intn(g.nv-3)
	}
	for i, p := range g.Perm(g.nv) {
		if i < n {
			ts = append(ts, TermMk{C: g.coefNZ(), F: [][2]int{{p + 1, 1}}})
		}
	}
	if g.chance(0.6) {
		ts = append(ts, TermMk{C: g.coefNZ(), F: [][2]int{}})
	}
	g.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	return ts
}

// wrt chooses a variable list: none, or a list of distinct variables.
func (g *Gen) wrt(x info, cover bool) (n, v []int) {
	if g.chance(0.4) {
		return []int{0}, []int{}
	}
	v = []int{}
	for _, p := range g.Perm(g.nv) {
		if x.vars[p+1] && (cover || g.chance(0.85)) || !x.vars[p+1] && g.chance(0.4) {
			v = append(v, p+1)
		}
	}
	return []int{1}, v
}

var convs = map[string][]string{
	"K":   {"ToMonomial", "ToPolynomial", "ToExpression", "ToScalarExpression", "ToPolynomialLike", "ToPolynomialLikeScalar"},
	"Var": {"ToMonomial", "ToPolynomial", "ToExpression", "ToScalarExpression", "ToPolynomialLike", "ToPolynomialLikeScalar"},
	"Mon": {"ToPolynomial", "ToVariable", "ToExpression", "ToScalarExpression", "ToPolynomialLike", "ToPolynomialLikeScalar"},
	"Pol": {"ToExpression", "ToScalarExpression", "ToPolynomialLike", "ToPolynomialLikeScalar"},
	"KV":  {"ToMonomialVector", "ToPolynomialVector", "ToVecDense", "ToExpression", "ToVectorExpression", "ToPolynomialLike", "ToPolynomialLikeVector"},
	"VV":  {"ToMonomialVector", "ToPolynomialVector", "ToExpression", "ToVectorExpression", "ToPolynomialLike", "ToPolynomialLikeVector"},
	"MV":  {"ToPolynomialVector", "ToExpression", "ToVectorExpression", "ToPolynomialLike", "ToPolynomialLikeVector"},
	"PV":  {"ToExpression", "ToVectorExpression", "ToPolynomialLike", "ToPolynomialLikeVector"},
	"KM":  {"ToMonomialMatrix", "ToPolynomialMatrix", "ToDense", "ToExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeMatrix"},
	"VM":  {"ToMonomialMatrix", "ToPolynomialMatrix", "ToExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeMatrix"},
	"MM":  {"ToExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeMatrix"},
	"PM":  {"ToExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeMatrix"},
	"f64": {"ToExpression", "ToScalarExpression"},
	"VD":  {"VecDenseToKVector", "getKVector", "getKVectorF", "getKVectorI", "ToExpression", "ToVectorExpression"},
	"pVD": {"VecDenseToKVector", "getKVector"},
	"D":   {"DenseToKMatrix", "getKMatrix", "getKMatrixF", "getKMatrixR", "ToExpression", "ToMatrixExpression"},
	"pD":  {"DenseToKMatrix", "getKMatrix"},
}

// conversions that can be asked of anything
var anyConvs = []string{"ToExpression", "ToScalarExpression", "ToVectorExpression", "ToMatrixExpression", "ToPolynomialLike",
	"ToPolynomialLikeScalar", "ToPolynomialLikeVector", "ToPolynomialLikeMatrix", "getKVector", "getKMatrix"}

var pokeable = map[string]bool{"KV": true, "KM": true, "VD": true, "pVD": true, "D": true, "pD": true}

func (g *Gen) conv(poke bool) *Event {
	k := g.kind(append(append([]string{}, otherKinds...), "KV", "KM", "VD", "D"))
	if poke {
		k = g.kind([]string{"KV", "KM", "VD", "pVD", "D", "pD"})
	}
	cs := convs[k]
	if !poke && g.chance(0.2) {
		cs = anyConvs
	}
	if len(cs) == 0 {
		return nil
	}
	c := cs[g.Intn(len(cs))]
	if poke {
		c = g.kind(map[string][]string{"KV": {"ToVecDense"}, "KM": {"ToDense"},
			"VD": {"VecDenseToKVector", "getKVector", "ToExpression"}, "pVD": {"VecDenseToKVector", "getKVector"},
			"D": {"DenseToKMatrix", "getKMatrix", "ToExpression"}, "pD": {"DenseToKMatrix", "getKMatrix"}}[k])
	}
	var a int
	if c == "getKVectorI" {
		g.ints = true
		a = g.mk(g.lit(k, g.dim(), 1))
		g.ints = false
		if g.info(a).K > 0 {
			return nil
		}
	} else if c == "ToVariable" && g.chance(0.7) {
		v := g.v()
		a = g.mk(&Mk{K: "Mon", R: 1, C: 1, E: [][]TermMk{{{C: [2]int{1, 0}, F: [][2]int{{v, 1}}}}}})
	} else if poke {
		a = g.mk(g.lit(k, g.dim(), g.dim()))
	} else {
		a = g.pick(k, g.dim(), g.dim())
	}
	ev := g.do(Step{Op: "conv", S: c, A: []int{a}})
	if poke {
		if b := g.last(ev); b > 0 {
			w := g.Intn(24)
			for _, x := range []int{b, a} {
				if pokeable[g.info(x).kind] {
					ev = g.do(Step{Op: "poke", S: "conv", A: []int{x}, N: []int{w}})
				}
			}
		}
	}
	return ev
}

func (g *Gen) copypoke() *Event {
	k := g.kind([]string{"Mon", "Pol", "VV"})
	a := g.mk(g.lit(k, g.dim(), 1))
	b := g.last(g.do(Step{Op: "copy", A: []int{a}}))
	if b == 0 {
		return nil
	}
	w := g.Intn(24)
	ev := g.do(Step{Op: "poke", S: "copy", A: []int{b}, N: []int{w}})
	if g.chance(0.5) {
		ev = g.do(Step{Op: "poke", S: "copy", A: []int{a}, N: []int{w}})
	}
	return ev
}

// again repeats an earlier call that returned one expression.
func (g *Gen) again() {
	steps := g.r.prog.Steps
	var cand []int
	for i, s := range steps {
		if repeatable[s.Op] && s.O > 0 {
			if _, ok := g.r.idmap[s.O]; ok && g.info(s.O).kind != "" && !g.info(s.O).con && !g.info(s.O).mal {
				cand = append(cand, i)
			}
		}
	}
	if len(cand) == 0 {
		return
	}
	s := steps[cand[g.Intn(len(cand))]]
	s.Same = s.O
	s.O = 0
	g.do(s)
}

var repeatable = map[string]bool{"plus": true, "minus": true, "minusfn": true, "mul": true, "pow": true, "tr": true,
	"deriv": true, "subst": true, "substmap": true, "simp": true, "simplify": true, "hstack": true, "vstack": true,
	"concv": true, "concm": true}

// variables lays out the variable table.
func (g *Gen) variables(p *Program) {
	n := 7
	if g.many {
		n = 19
	}
	switch x := g.Intn(100); {
	case g.many && x < 60:
		g.wide = wideLong
		p.Wide = "long"
	case x < 12:
		g.wide = wideBig
	case x < 24:
		g.wide = wideFine
	case x < 36:
		g.wide = wideShape
	case x < 46:
		g.wide = wideLong
		p.Wide = "long"
	case x < 54:
		g.wide = wideNear
		g.scale = []int{14, 17, 20, 21, 24, 27, 30, 34, 37, 40, 44}[g.Intn(11)]
	case x < 59 && fullFamilies[g.fam.Name]:
		g.wide = wideFull
		g.fam.NonCan = 0
	case x < 66 && exprFamilies[g.fam.Name]:
		g.wide = wideTiny
		g.scale = []int{20, 21, 24, 27, 30, 34, 40, 47, 54, 60}[g.Intn(10)]
	}
	if g.wide == wideTiny || g.wide == wideBig || g.wide == wideNear || g.wide == wideFull {
		p.Wide = "wide"
	}
	g.nv = 2 + g.Intn(4)
	if g.wide == wideShape || g.wide == wideLong {
		g.nv = 2 + g.Intn(6)
	}
	if g.many {
		g.nv = 8 + g.Intn(n-7)
	}
	hi := uint64(0)
	if g.chance(0.12) { // identifiers beyond 32 bits, some equal in their low bits
		hi = []uint64{1 << 31, 1 << 32, 1 << 32, 1 << 40, 1 << 63}[g.Intn(5)]
	}
	x := g.chance(g.fam.XEnv)
	p.NEnv = 0
	if x || g.chance(0.3) {
		p.NEnv = 2
		if g.chance(0.3) {
			p.EnvT = []string{g.kind([]string{"", "own-", "emb-"}), g.kind([]string{"", "own-", "emb-"})}
		}
	}
	names := []string{"x", "y", "z", "x_1", "x_12", "x_2", "alpha", "u_10", "v", "w0"}
	for i := len(names); i < n; i++ {
		names = append(names, fmt.Sprintf("x_%d", 3+i))
	}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	used := map[[2]int]bool{}
	for i := 0; i < n; i++ {
		v := VarMk{Name: names[i], Kind: []string{"c", "c", "b", "i"}[g.Intn(4)], B: []int{0, 0, 0, 1, 2}[g.Intn(5)]}
		for {
			v.ID = uint64(g.Intn(n + 2))
			if x {
				v.ID = uint64(g.Intn(2 + n/10*6))
				v.Env = g.Intn(p.NEnv+2) - 1
			} else if p.NEnv > 0 {
				v.ID = uint64(g.Intn(60))
				v.Env = g.Intn(p.NEnv + 1)
			} else if g.chance(0.05) {
				v.ID = uint64(100000 + g.Intn(100000))
			}
			if g.chance(0.5) {
				v.ID += hi
			}
			clash := used[[2]int{int(v.ID), v.Env}]
			if !x {
				for u := range used {
					clash = clash || u[0] == int(v.ID)
				}
			}
			if !clash {
				break
			}
		}
		used[[2]int{int(v.ID), v.Env}] = true
		if x && i > 0 && g.chance(0.2) {
			v.Name = p.Vars[i-1].Name
		}
		p.Vars = append(p.Vars, v)
	}
}

// Generate runs one random program of a family.
func Generate(fam Family, seed int64, num int, many bool, mark func(Event)) *Runner {
	h := int64(1469598103)
	for _, c := range fam.Name {
		h = h*31 + int64(c)
	}
	g := &Gen{Rand: rand.New(rand.NewSource(seed*1000003 + h*7919 + int64(num)*104729)), fam: fam, many: many}
	p := Program{P: num, Fam: fam.Name}
	g.variables(&p)
	p2 := p
	g.r = newRunner(p2, mark)
	for i := 0; i < 4; i++ {
		g.pool = append(g.pool, g.factors())
	}
	tot := 0
	for _, w := range fam.Ops {
		tot += w.W
	}
	for try := 0; g.calls < fam.Calls && try < 4*fam.Calls && !g.r.dead; try++ {
		x := g.Intn(tot)
		op := ""
		for _, w := range fam.Ops {
			if x < w.W {
				op = w.Op
				break
			}
			x -= w.W
		}
		g.call(op)
		if fam.Again > 0 && g.chance(fam.Again) {
			g.again()
		}
	}
	return g.r
}
