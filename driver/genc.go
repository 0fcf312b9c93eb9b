package main

import "math"

// Generation of scenarios on constraints and environments.

var senses = []string{"le", "ge", "eq"}

// constraint makes a constraint by comparing two values; k is "S", "V", "M"
// or "" for any.
func (g *Gen) constraint(k string) int {
	if g.chance(g.fam.Reuse) {
		if x := g.find(func(n info) bool { return n.con && (k == "" || n.kind == k) && small(n) }); x > 0 {
			return x
		}
	}
	if k == "" {
		k = g.kind([]string{"S", "V", "M"})
	}
	lin := g.chance(0.5)
	var k1, k2 string
	switch k {
	case "S":
		k1, k2 = g.kind(scalarKinds), g.kind(scalarKinds)
	case "V":
		k1, k2 = g.kind(vectorKinds), g.kind(append(vectorKinds[:4:4], scalarKinds...))
	default:
		k1, k2 = g.kind(matrixKinds), g.kind(append(matrixKinds[:4:4], scalarKinds...))
	}
	r, c := 2+g.Intn(2), 1+g.Intn(3)
	if g.chance(0.1) {
		r = 1
	}
	side := func(k string) int {
		if lin {
			return g.linearRC(k, r, c)
		}
		return g.pick(k, r, c)
	}
	a, b := side(k1), side(k2)
	if g.chance(0.2) {
		a, b = b, a
	}
	if x, y := g.info(a), g.info(b); x.mal || y.mal || !small(sumNorm(x, y)) {
		return 0
	}
	x, y := g.info(a), g.info(b)
	s := g.kind(senses)
	// build directly when the sides agree in class, by comparison otherwise
	if isScalarLike(x.kind) == isScalarLike(y.kind) && isVectorLike(x.kind) == isVectorLike(y.kind) && g.chance(0.7) {
		return g.last(g.do(Step{Op: "mkc", A: []int{a, b}, S: s}))
	}
	return g.last(g.do(Step{Op: "cmp", A: []int{a, b}, S: s}))
}

func (g *Gen) linearRC(k string, r, c int) int {
	r, c = fit(k, r, c)
	mk := &Mk{K: k, R: r, C: c}
	for i := 0; i < r*c; i++ {
		mk.E = append(mk.E, g.linEntry(k))
	}
	return g.mk(mk)
}

// malConstraint makes a malformed constraint.
func (g *Gen) malConstraint() int {
	var a, b int
	s := g.kind(senses)
	switch g.Intn(4) {
	case 0:
		a, b = g.anyOf(scalarKinds), g.anyOf(scalarKinds)
		s = "?"
	case 1: // sides of different length
		n := 2 + g.Intn(2)
		a, b = g.pick(g.kind(vectorKinds), n, 1), g.pick(g.kind(vectorKinds), n+1, 1)
	case 2:
		a, b = g.pick(g.kind(matrixKinds), 2, 2), g.pick(g.kind(matrixKinds), 2+g.Intn(2), 3)
	case 3:
		ks := [][]string{scalarKinds, vectorKinds, matrixKinds}[g.Intn(3)]
		a, b = g.pick(g.kind(ks), 2, 2), g.pick(g.kind(ks), 2, 2)
		k := g.kind(ks)
		if x := g.malformed(k, 2, 2); x > 0 {
			if g.chance(0.5) {
				a = x
			} else {
				b = x
			}
		}
	}
	return g.last(g.do(Step{Op: "mkc", A: []int{a, b}, S: s}))
}

func (g *Gen) one(k string, ts ...TermMk) int {
	return g.mk(&Mk{K: k, R: 1, C: 1, E: [][]TermMk{ts}})
}

func tm(n, k int, f ...[2]int) TermMk {
	if f == nil {
		f = [][2]int{}
	}
	return TermMk{C: [2]int{n, k}, F: f}
}

// scalarSide writes a*v + b in some kind of scalar.
func (g *Gen) scalarSide(v int, a, b [2]int) int {
	z := [2]int{0, 0}
	switch {
	case a == z:
		switch g.Intn(4) {
		case 0:
			return g.one("Mon", TermMk{C: b, F: [][2]int{}})
		case 1:
			return g.one("Pol", TermMk{C: b, F: [][2]int{}})
		}
		return g.one("K", TermMk{C: b, F: [][2]int{}})
	case b == z && a == [2]int{1, 0} && g.chance(0.5):
		return g.one("Var", TermMk{C: a, F: [][2]int{{v, 1}}})
	case b == z && g.chance(0.6):
		return g.one("Mon", TermMk{C: a, F: [][2]int{{v, 1}}})
	case b == z:
		return g.one("Pol", TermMk{C: a, F: [][2]int{{v, 1}}})
	}
	ts := []TermMk{{C: a, F: [][2]int{{v, 1}}}, {C: b, F: [][2]int{}}}
	if g.chance(0.5) {
		ts[0], ts[1] = ts[1], ts[0]
	}
	return g.one("Pol", ts...)
}

var twos = [][2]int{{1, 0}, {1, 0}, {2, 0}, {4, 0}, {1, 1}, {-1, 0}, {-1, 0}, {-2, 0}, {-4, 0}, {-1, 1}, {3, 0}, {-3, 0}, {5, 0}}

// bound writes a one-variable linear constraint  a*v + b  s  c*v + d.
func (g *Gen) bound(v int) int {
	a := twos[g.Intn(len(twos))]
	z := [2]int{0, 0}
	rb := func() [2]int {
		if g.chance(0.2) {
			return z
		}
		return g.around(g.Intn(17) - 8)
	}
	var l, r int
	switch g.Intn(6) {
	case 0:
		l, r = g.scalarSide(v, a, z), g.scalarSide(v, z, rb())
	case 1:
		l, r = g.scalarSide(v, z, rb()), g.scalarSide(v, a, z)
	case 2:
		l, r = g.scalarSide(v, a, rb()), g.scalarSide(v, z, rb())
	case 3:
		l, r = g.scalarSide(v, z, rb()), g.scalarSide(v, a, rb())
	case 4:
		l, r = g.scalarSide(v, a, rb()), g.scalarSide(v, z, z)
	case 5: // variable on both sides: coefficients differ by a
		m := [2]int{a[0] + (1+g.Intn(3))<<uint(a[1]), a[1]}
		l, r = g.scalarSide(v, m, rb()), g.scalarSide(v, [2]int{(m[0] - a[0]) >> uint(a[1]), 0}, rb())
	}
	return g.last(g.do(Step{Op: "mkc", A: []int{l, r}, S: g.kind(senses)}))
}

// boundArray writes a vector or matrix constraint and a scalar bound close to
// one of its entries.
func (g *Gen) boundArray() (int, int) {
	r, c := 1+g.Intn(3), 1
	ks, kk := vectorKinds[1:], "KV"
	if g.chance(0.4) {
		c = 1 + g.Intn(3)
		ks, kk = matrixKinds[1:], "KM"
	}
	k := g.kind(ks)
	mk, kv := &Mk{K: k, R: r, C: c}, &Mk{K: kk, R: r, C: c}
	at := g.Intn(r * c)
	one := [2]int{1, 0}
	var cf, bd [2]int
	var w int
	for i := 0; i < r*c; i++ {
		v, a, b := 1+g.Intn(min(6, g.nv)), twos[g.Intn(len(twos))], [2]int{g.Intn(17) - 8, 0}
		if isVarKind(k) {
			a = one
		}
		if i == at {
			cf, bd, w = a, b, v
		}
		mk.E = append(mk.E, []TermMk{{C: a, F: [][2]int{{v, 1}}}})
		kv.E = append(kv.E, []TermMk{{C: b, F: [][2]int{}}})
	}
	s := g.kind(senses)
	x := g.last(g.do(Step{Op: "mkc", A: []int{g.mk(mk), g.mk(kv)}, S: s}))
	bd = g.around(bd[0] + g.Intn(3) - 1)
	if g.chance(0.1) {
		s = g.kind(senses)
	}
	y := g.last(g.do(Step{Op: "mkc", A: []int{g.scalarSide(w, cf, [2]int{0, 0}), g.scalarSide(w, [2]int{0, 0}, bd)}, S: s}))
	return x, y
}

// looseCon: a small constraint of any degree for implication.
func (g *Gen) looseCon() int {
	switch g.Intn(8) {
	case 0, 1, 2:
		return g.bound(1 + g.Intn(min(2, g.nv)))
	case 3: // linear in two variables
		v, w := 1, 2
		l := g.one("Pol", TermMk{C: twos[g.Intn(len(twos))], F: [][2]int{{v, 1}}}, TermMk{C: twos[g.Intn(len(twos))], F: [][2]int{{w, 1}}})
		return g.last(g.do(Step{Op: "mkc", A: []int{l, g.one("K", tm(g.Intn(9)-4, 0))}, S: g.kind(senses)}))
	case 4, 5: // a power or a product
		v := 1 + g.Intn(min(2, g.nv))
		f := [][2]int{{v, 2 + g.Intn(2)}}
		if g.chance(0.3) {
			f = [][2]int{{1, 1}, {2, 1}}
		}
		ts := []TermMk{{C: twos[g.Intn(len(twos))], F: f}}
		if g.chance(0.4) {
			ts = append(ts, tm(g.Intn(9)-4, 0, [2]int{v, 1}))
		}
		if g.chance(0.4) {
			ts = append(ts, tm(1+g.Intn(4), 0))
		}
		k := "Pol"
		if len(ts) == 1 && g.chance(0.7) {
			k = "Mon"
		}
		l := g.one(k, ts...)
		return g.last(g.do(Step{Op: "mkc", A: []int{l, g.one("K", tm(g.Intn(9)-4, 0))}, S: g.kind(senses)}))
	case 6: // constants
		return g.last(g.do(Step{Op: "mkc", A: []int{g.one("K", tm(g.Intn(5)-2, 0)), g.one("K", tm(g.Intn(5)-2, 0))}, S: g.kind(senses)}))
	}
	// vector or matrix of bounds
	n, c := 2+g.Intn(2), 1
	k := g.kind(vectorKinds[1:])
	if g.chance(0.4) {
		k, c = g.kind(matrixKinds[1:]), 2
	}
	mk := &Mk{K: k, R: n, C: c}
	for i := 0; i < n*c; i++ {
		v := 1 + g.Intn(min(2, g.nv))
		switch k {
		case "VV", "VM":
			mk.E = append(mk.E, []TermMk{tm(1, 0, [2]int{v, 1})})
		case "MV", "MM":
			mk.E = append(mk.E, []TermMk{{C: twos[g.Intn(len(twos))], F: [][2]int{{v, 1}}}})
		default:
			mk.E = append(mk.E, []TermMk{{C: twos[g.Intn(len(twos))], F: [][2]int{{v, 1}}}, tm(1+g.Intn(4), 0)})
		}
	}
	kv := &Mk{K: "KV", R: n, C: c}
	if c > 1 {
		kv.K = "KM"
	}
	for i := 0; i < n*c; i++ {
		kv.E = append(kv.E, []TermMk{tm(g.Intn(9)-4, 0)})
	}
	return g.last(g.do(Step{Op: "mkc", A: []int{g.mk(mk), g.mk(kv)}, S: g.kind(senses)}))
}

// nearNonneg writes constraints around  v >= 0.
func (g *Gen) nearNonneg() int {
	v := g.v()
	a := twos[g.Intn(len(twos))]
	if g.wide == wideNear && g.chance(0.25) {
		a = [2]int{2*g.Intn(2) - 1, g.scale}
	}
	s := "ge"
	if a[0] < 0 {
		s = "le"
	}
	z := [2]int{0, 0}
	var l, r int
	switch g.Intn(8) {
	case 0, 1:
		l, r = g.scalarSide(v, a, z), g.scalarSide(v, z, z)
	case 2:
		l, r = g.scalarSide(v, z, z), g.scalarSide(v, [2]int{-a[0], a[1]}, z)
	case 3: // equal constants on both sides
		b := [2]int{1 + g.Intn(5), 0}
		l, r = g.scalarSide(v, a, b), g.scalarSide(v, z, g.around(b[0]))
	case 4: // variable on both sides
		c := [2]int{1 + g.Intn(3), 0}
		l, r = g.scalarSide(v, [2]int{a[0] + c[0]<<uint(a[1]), a[1]}, z), g.scalarSide(v, c, z)
	case 5: // another variable or a power
		w := g.v()
		t := TermMk{C: a, F: [][2]int{{v, 1}}}
		switch g.Intn(4) {
		case 0:
			if w != v {
				l, r = g.one("Pol", t, TermMk{C: twos[g.Intn(len(twos))], F: [][2]int{{w, 1}}}), g.one("K", tm(0, 0))
				break
			}
			fallthrough
		case 1:
			t.F[0][1] = 2 + g.Intn(2)
			l, r = g.one("Mon", t), g.one("K", tm(0, 0))
		case 2:
			if w != v {
				t.F = append(t.F, [2]int{w, 1})
			}
			l, r = g.one("Mon", t), g.one("K", tm(0, 0))
		default:
			l, r = g.one("K", tm(g.Intn(3), 0)), g.one("K", tm(g.Intn(3), 0))
		}
	case 6: // a bound other than zero
		b := g.around(g.Intn(9) - 4)
		l, r = g.scalarSide(v, a, b), g.scalarSide(v, z, g.around(g.Intn(9)-4))
	case 7: // a bound that is almost zero, where the program has such numbers
		l, r = g.scalarSide(v, a, z), g.scalarSide(v, z, g.around(0))
	}
	if g.chance(0.25) {
		s = g.kind(senses)
	}
	if g.chance(0.4) {
		l, r = r, l
		if s == "ge" {
			s = "le"
		} else if s == "le" {
			s = "ge"
		}
	}
	return g.last(g.do(Step{Op: "mkc", A: []int{l, r}, S: s}))
}

func factorInfo(f [2]int) info {
	l, k := math.Abs(float64(f[0])), f[1]
	if k < 0 {
		l, k = math.Ldexp(l, -k), 0
	}
	return info{L: within(l), K: k, T: 1}
}

func (g *Gen) factor() *[2]int {
	c := g.coefNZ()
	if g.chance(0.3) { // a power of two, near or far from one
		c = [2]int{1 - 2*g.Intn(2), g.Intn(25) - 12}
	}
	return &c
}

func (g *Gen) callC(op string) *Event {
	con := func(k string) int {
		if g.chance(g.fam.Mal) {
			return g.malConstraint()
		}
		return g.constraint(k)
	}
	switch op {
	case "cmp":
		k1, k2 := g.kind(exprKinds), g.kind(otherKinds)
		if g.chance(0.5) { // same class
			for _, ks := range [][]string{scalarKinds, vectorKinds, matrixKinds} {
				if isIn(k1, ks) {
					k2 = g.kind(ks)
				}
			}
		}
		r1, c1, r2, c2 := g.sumShapes(k1, k2)
		a, b := g.pick(k1, r1, c1), g.pick(k2, r2, c2)
		if x, y := g.info(a), g.info(b); !small(sumNorm(x, y)) {
			return nil
		}
		return g.do(Step{Op: op, A: []int{a, b}, S: g.kind(senses), N: []int{g.Intn(2)}})
	case "left", "right", "csense", "cvars", "cvarsfn", "cislin":
		if c := con(""); c > 0 {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "cdims":
		if c := g.constraint(g.kind([]string{"V", "M"})); c > 0 {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "clen":
		if c := g.constraint("V"); c > 0 {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "catvec":
		if c := con("V"); c > 0 && g.info(c).kind == "V" {
			return g.do(Step{Op: op, A: []int{c}, N: []int{g.index(g.info(c).r)}})
		}
	case "cat":
		if c := con("M"); c > 0 && g.info(c).kind == "M" {
			return g.do(Step{Op: op, A: []int{c}, N: []int{g.index(g.info(c).r), g.index(g.info(c).c)}})
		}
	case "csimplify":
		c := con("S")
		if g.chance(0.3) {
			c = g.nearNonneg()
		}
		if c > 0 && g.info(c).kind == "S" {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "cassimp":
		if c := con(""); c > 0 && small(g.info(c)) {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "cscale":
		f := g.factor()
		if c := con("S"); c > 0 && g.info(c).kind == "S" && small(mulNorm(g.info(c), factorInfo(*f), 1)) {
			return g.do(Step{Op: op, A: []int{c}, F: f})
		}
	case "csubst":
		c := con("")
		if c == 0 {
			return nil
		}
		b := g.pick(g.kind(scalarKinds), 1, 1)
		if x := g.info(c); g.substOK(x, []int{b}) {
			return g.do(Step{Op: op, A: []int{c, b}, V: []int{g.occurring(x)}})
		}
	case "csubstmap":
		c := con("")
		if c == 0 {
			return nil
		}
		if m, bad, ok := g.subMap(g.info(c)); ok && bad == "" {
			return g.do(Step{Op: op, A: []int{c}, M: m})
		}
	case "compile":
		var as []int
		for i := g.long(4); i >= 0; i-- {
			if c := con(""); c > 0 {
				as = append(as, c)
			}
		}
		return g.do(Step{Op: op, A: as})
	case "implies":
		a, b := 0, 0
		if g.chance(0.6) {
			v := 1 + g.Intn(min(2, g.nv))
			a, b = g.bound(v), g.bound(v)
		} else if g.chance(0.3) { // an array of bounds and one of its entries, or nearly
			a, b = g.boundArray()
		} else {
			a, b = g.looseCon(), g.looseCon()
		}
		if g.chance(g.fam.Mal) {
			a = g.malConstraint()
		}
		if a > 0 && b > 0 {
			return g.do(Step{Op: op, A: []int{a, b}})
		}
	case "nonneg":
		c := g.nearNonneg()
		if g.chance(0.15) {
			c = con("S")
		}
		if c > 0 && g.info(c).kind == "S" {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "ineqrep", "eqrep":
		k := g.kind([]string{"S", "S", "V"})
		c := 0
		if g.chance(0.8) {
			n := 2 + g.Intn(2)
			if k == "S" {
				n = 1
			}
			ks := scalarKinds
			if k == "V" {
				ks = vectorKinds
			}
			l, r := g.linear(g.kind(ks), n), g.linear(g.kind(ks), n)
			if !small(sumNorm(g.info(l), g.info(r))) {
				return nil
			}
			s := g.kind([]string{"le", "ge"})
			if op == "eqrep" {
				s = "eq"
			}
			if g.chance(0.1) {
				s = g.kind(senses)
			}
			c = g.last(g.do(Step{Op: "mkc", A: []int{l, r}, S: s}))
		} else {
			c = con(k)
		}
		if c == 0 || g.info(c).kind == "M" {
			return nil
		}
		n, v := g.wrt(g.info(c), true)
		return g.do(Step{Op: op, A: []int{c}, N: n, V: v})
	case "cstr":
		if c := g.constraint("S"); c > 0 {
			return g.do(Step{Op: op, A: []int{c}})
		}
	case "mkenv":
		if len(g.r.m.Envs) < 4 {
			return g.do(Step{Op: op, S: g.kind([]string{"env", "test", "env2", "model", "own-env", "emb-env"})})
		}
	case "newvar":
		return g.do(Step{Op: op, S: g.kind([]string{"", "c", "b"}), N: []int{g.envIdx()}})
	case "newvec":
		return g.do(Step{Op: op, N: []int{g.envIdx(), 1 + g.long(4) + g.long(2)*g.long(6)}})
	case "newmat":
		return g.do(Step{Op: op, S: g.kind([]string{"", "classic"}), N: []int{g.envIdx(), 1 + g.long(3), 1 + g.long(3)}})
	case "track":
		id := g.Intn(12)
		if g.chance(0.2) {
			id = 20 + g.Intn(100)
		} else if g.chance(0.12) {
			id = []int{1<<30 + g.Intn(6), 1<<30 + 1<<21 - g.Intn(2), 1<<30 - g.Intn(2)}[g.Intn(3)]
		}
		name := ""
		if g.chance(0.4) {
			name = g.kind([]string{"u_0", "u_1", "x_0", "x_1", "alpha", "total cost", "y"})
		}
		e := g.envIdx()
		if g.chance(0.25) { // another type and other bounds
			return g.do(Step{Op: op, S: name, N: []int{e, id, e, 1 + g.Intn(3), 1 + g.Intn(3)}})
		}
		if g.chance(0.15) {
			return g.do(Step{Op: op, S: name, N: []int{e, id, g.envIdx()}})
		}
		return g.do(Step{Op: op, S: name, N: []int{e, id}})
	case "all", "envname":
		return g.do(Step{Op: op, N: []int{g.envIdx()}})
	default:
		fail("no generator for %s", op)
	}
	return nil
}

func (g *Gen) envIdx() int { return g.Intn(len(g.r.m.Envs) + 1) }
