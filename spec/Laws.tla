-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The laws a user relies on, checked on the operators that serve as the   *)
(* oracle for the implementation (Api.tla and below): every tuple over a   *)
(* pool of polynomials, arrays and constraints is one state.               *)
(***************************************************************************)
EXTENDS Api, Reasons

CONSTANTS What,        \* "ring", "calculus", "arrays", "stack", "bounds", "multi", "reasons"
          Big          \* larger pools
VARIABLES a, b, c, chosen
vars == <<a, b, c, chosen>>

X1 == PVar(1)
Y1 == PVar(2)
Z1 == PVar(3)
H == <<1, 1>>
P0 == { PZero, POne, PConst(<<-3, 1>>), X1, Y1, PScale(<<-2, 0>>, X1), PMul(X1, Y1), PSub(X1, Y1),
        PAdd(PMul(X1, X1), PAdd(Y1, PConst(H))), PSub(PMul(PMul(X1, Y1), Y1), PScale(<<3, 0>>, X1)) }
P1 == P0 \cup { PAdd(Z1, PMul(Z1, X1)), PPow(PAdd(X1, PConst(<<-1, 0>>)), 3), PScale(H, PMul(PMul(X1, X1), PMul(Y1, Z1))) }

\* arrays of every small shape, of distinguishable entries
Ent(n) == PAdd(PScale(DInt(n), X1), IF n % 2 = 0 THEN PConst(<<n - 3, 1>>) ELSE PMul(Y1, IF n % 3 = 0 THEN Y1 ELSE POne))
ArrOf(r, cc, s) == Arr(r, cc, [k \in 1..(r * cc) |-> Ent(k * s + 1)])
Shp == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<3, 1>>}
Arrs == {ArrOf(q[1], q[2], s) : q \in Shp, s \in {1, 2}} \cup {Arr(2, 2, <<PZero, X1, POne, PZero>>), Arr(2, 1, <<PZero, PZero>>), Sca(PZero)}

\* linear constraints <<p, sense>> in one variable, and in several
Slopes == {<<-3, 0>>, <<-1, 1>>, <<1, 0>>, <<2, 0>>} \cup IF Big THEN {<<-1, 0>>, <<1, 1>>, <<3, 0>>} ELSE {}
Consts == {<<-5, 1>>, <<-1, 0>>, <<0, 0>>, <<3, 1>>} \cup IF Big THEN {<<-2, 0>>, <<1, 0>>, <<3, 0>>} ELSE {}
Bounds1 == {<<PAdd(PScale(s, X1), PConst(k)), t>> : s \in Slopes, k \in Consts, t \in Senses}
Multi == {<<PAdd(PAdd(PScale(s, X1), PScale(u, Y1)), PConst(k)), t>> :
            s \in {<<-1, 0>>, <<0, 0>>, <<2, 0>>}, u \in {<<-1, 0>>, <<0, 0>>, <<1, 1>>}, k \in {<<-2, 0>>, <<1, 0>>} \cup (IF Big THEN {<<0, 0>>} ELSE {}), t \in Senses}

First ==
  CASE What \in {"ring", "calculus"} -> P1
    [] What \in {"arrays", "stack", "reasons"} -> Arrs
    [] What = "bounds" -> Bounds1
    [] What = "multi" -> Multi
Third ==
  CASE What = "calculus" -> P0
    [] What = "bounds" -> {0}
    [] What = "reasons" -> (-1..3) \X (-1..3)
    [] What = "multi" -> IF Big THEN {<<-2, 0>>, <<1, 1>>, <<3, 0>>} ELSE {<<-3, 1>>}
    [] OTHER -> First
Init == a \in First /\ b = 0 /\ c = 0 /\ chosen = FALSE
Next == ~chosen /\ chosen' = TRUE /\ a' = a /\ b' \in First /\ c' \in Third
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C02: a commutative ring *)
Ring ==
  /\ PAdd(a, b) = PAdd(b, a)
  /\ PAdd(PAdd(a, b), c) = PAdd(a, PAdd(b, c))
  /\ PMul(a, b) = PMul(b, a)
  /\ PMul(PMul(a, b), c) = PMul(a, PMul(b, c))
  /\ PMul(a, PAdd(b, c)) = PAdd(PMul(a, b), PMul(a, c))
  /\ PAdd(a, PZero) = a /\ PMul(a, POne) = a /\ PMul(a, PZero) = PZero
  /\ PSub(a, a) = PZero /\ PAdd(PSub(a, b), b) = a
  /\ (PMul(a, b) = PZero) = (a = PZero \/ b = PZero)
  /\ a # PZero /\ b # PZero => PDegree(PMul(a, b)) = PDegree(a) + PDegree(b)
  /\ PDegree(PAdd(a, b)) <= Max({PDegree(a), PDegree(b)})
  /\ PVars(PAdd(a, b)) \subseteq PVars(a) \cup PVars(b)
  /\ PVars(PMul(a, b)) = IF PMul(a, b) = PZero THEN {} ELSE PVars(a) \cup PVars(b)
  /\ PPow(PMul(a, b), 2) = PMul(PPow(a, 2), PPow(b, 2)) /\ PPow(a, 3) = PMul(a, PMul(a, a)) /\ PPow(a, 0) = POne

-----------------------------------------------------------------------------
(* C05 C06 C07 C09 C17: calculus and substitution *)
S1(v, p) == [w \in {v} |-> p]
Swap == [w \in {1, 2} |-> IF w = 1 THEN Y1 ELSE X1]
Both == [w \in {1, 2} |-> IF w = 1 THEN b ELSE c]
Calculus ==
  /\ \A v \in 1..2 :
       /\ PDeriv(PAdd(a, b), v) = PAdd(PDeriv(a, v), PDeriv(b, v))
       /\ PDeriv(PMul(a, b), v) = PAdd(PMul(PDeriv(a, v), b), PMul(a, PDeriv(b, v)))
       /\ \A w \in Slots : PDeriv(PDeriv(a, v), w) = PDeriv(PDeriv(a, w), v)
       /\ (v \notin PVars(a)) = (PDeriv(a, v) = PZero)
       \* substitution is a homomorphism, and what does not occur is left alone
       /\ PSubst(PAdd(a, b), S1(v, c)) = PAdd(PSubst(a, S1(v, c)), PSubst(b, S1(v, c)))
       /\ PSubst(PMul(a, b), S1(v, c)) = PMul(PSubst(a, S1(v, c)), PSubst(b, S1(v, c)))
       /\ PSubst(a, S1(v, PVar(v))) = a
       /\ v \notin PVars(a) => PSubst(a, S1(v, c)) = a
       \* chain rule
       /\ \A w \in Slots \ {v} : PDeriv(PSubst(a, S1(v, c)), w) = PAdd(PSubst(PDeriv(a, w), S1(v, c)), PMul(PSubst(PDeriv(a, v), S1(v, c)), PDeriv(c, w)))
  \* simultaneous: swapping twice changes nothing, and a map is the same as
  \* substituting one after the other only through fresh variables
  /\ PSubst(PSubst(a, Swap), Swap) = a
  /\ 3 \notin PVars(a) \cup PVars(b) \cup PVars(c) =>
       PSubst(a, Both) = PSubst(PSubst(PSubst(a, S1(1, Z1)), S1(2, c)), S1(3, b))
  /\ (PVars(b) \cap {1, 2} = {} /\ PVars(c) \cap {1, 2} = {}) => PSubst(a, Both) = PSubst(PSubst(a, S1(1, b)), S1(2, c))
  \* the linear part
  /\ PDegree(a) <= 1 => a = FoldSet(LAMBDA v, acc : PAdd(acc, PScale(PLinCoef(a, v), PVar(v))), PConst(PConstTerm(a)), Slots)
  /\ \A v \in Slots : PLinCoef(PAdd(a, b), v) = DAdd(PLinCoef(a, v), PLinCoef(b, v))

-----------------------------------------------------------------------------
(* C03 C04: linear algebra *)
Ok(x) == x.t = "val"
V1(x) == x.v[1]
Arrays_ ==
  /\ Ok(AnsPlus(a, b)) => AnsPlus(a, b) = AnsPlus(b, a)
  /\ Ok(AnsPlus(a, b)) = Ok(AnsMinus(a, b))
  /\ Ok(AnsPlus(a, b)) /\ ASame(a, b) => V1(AnsPlus(V1(AnsMinus(a, b)), b)) = a
  \* the shape linear algebra prescribes
  /\ a.c = b.r => V1(AnsMul(a, b)).r = a.r /\ V1(AnsMul(a, b)).c = b.c
  /\ Ok(AnsPlus(a, b)) => LET s == V1(AnsPlus(a, b)) IN <<s.r, s.c>> = IF AIs1(a) THEN <<b.r, b.c>> ELSE <<a.r, a.c>>
  \* associative and distributive where everything is a matrix product or all
  \* is scalar
  /\ a.c = b.r /\ b.c = c.r => AMatMul(AMatMul(a, b), c) = AMatMul(a, AMatMul(b, c))
  /\ a.c = b.r /\ ASame(b, c) => AMatMul(a, AAdd(b, c)) = AAdd(AMatMul(a, b), AMatMul(a, c))
  /\ a.c = b.r => ATranspose(AMatMul(a, b)) = AMatMul(ATranspose(b), ATranspose(a))
  /\ ATranspose(ATranspose(a)) = a
  /\ ASame(a, b) => ATranspose(AAdd(a, b)) = AAdd(ATranspose(a), ATranspose(b))
  /\ AMatMul(a, AIdentity(a.c)) = a /\ AMatMul(AIdentity(a.r), a) = a
  /\ a.r = a.c => V1(AnsPow(a, 2)) = AMatMul(a, a) /\ V1(AnsPow(a, 0)) = AIdentity(a.r) /\ V1(AnsPow(a, 3)) = AMatMul(V1(AnsPow(a, 2)), a)
  \* a scalar acts on every entry
  /\ AIs1(a) => \A k \in 1..Len(b.p) : V1(AnsMul(a, b)).p[k] = PMul(a.p[1], b.p[k]) \/ (a.c = b.r /\ ~AIs1(b) /\ b.r = 1)
  \* refused exactly when incompatible
  /\ Ok(AnsMul(a, b)) = (a.c = b.r \/ AIs1(a) \/ AIs1(b))
  /\ Ok(AnsPlus(a, b)) = (ASame(a, b) \/ AIs1(a) \/ AIs1(b))
  \* calculus on products of arrays
  /\ a.c = b.r => ADeriv(AMatMul(a, b), 1) = AAdd(AMatMul(ADeriv(a, 1), b), AMatMul(a, ADeriv(b, 1)))

(* C10: entries in their places *)
Stack_ ==
  LET h == AnsHStack(<<a, b, c>>)
      v == AnsVStack(<<a, b, c>>)
  IN
  /\ Ok(h) = (a.r = b.r /\ b.r = c.r)
  /\ Ok(v) = (a.c = b.c /\ b.c = c.c)
  /\ Ok(h) => ATranspose(V1(h)) = V1(AnsVStack(<<ATranspose(a), ATranspose(b), ATranspose(c)>>))
  /\ Ok(h) => h = AnsHStack(<<V1(AnsHStack(<<a, b>>)), c>>)
  /\ Ok(v) => v = AnsVStack(<<a, V1(AnsVStack(<<b, c>>))>>)
  /\ Ok(h) => V1(h).c = a.c + b.c + c.c /\ V1(h).r = a.r
  /\ Ok(h) => \A i \in 1..a.r : /\ \A j \in 1..a.c : AEnt(V1(h), i, j) = AEnt(a, i, j)
                                /\ \A j \in 1..b.c : AEnt(V1(h), i, a.c + j) = AEnt(b, i, j)
                                /\ \A j \in 1..c.c : AEnt(V1(h), i, a.c + b.c + j) = AEnt(c, i, j)
  /\ Ok(v) => \A j \in 1..a.c : /\ \A i \in 1..a.r : AEnt(V1(v), i, j) = AEnt(a, i, j)
                                /\ \A i \in 1..b.r : AEnt(V1(v), a.r + i, j) = AEnt(b, i, j)
                                /\ \A i \in 1..c.r : AEnt(V1(v), a.r + b.r + i, j) = AEnt(c, i, j)
  /\ \A i \in 0..(a.r - 1), j \in 0..(a.c - 1) : AnsAt(a, i, j) = AnsAt(ATranspose(a), j, i)
  /\ \A i \in {-1, a.r}, j \in {-1, 0, a.c} : AnsAt(a, i, j) = Invalid
  /\ Ok(h) => \A k \in 1..3 : V1(AnsDeriv(V1(h), 1)) = V1(AnsHStack(<<ADeriv(a, 1), ADeriv(b, 1), ADeriv(c, 1)>>))

-----------------------------------------------------------------------------
(* C14 C15: bounds on one variable.  Two such constraints have breakpoints *)
(* -k/s; between and beyond them their truth does not change, so a point   *)
(* of each piece decides the implication exactly.                          *)
\* Breakpoints are multiples of 1/4 or of 1/6, so that two of them are equal
\* or at least 1/12 apart, and none is larger than 6.
Pieces(p, q) == {DNorm(n, 4) : n \in -104..104}
Truth(p, pt) == Holds(PEval(p[1], [v \in Slots |-> pt]), p[2])
\* equalities at breakpoints that are no dyadic numbers are decided separately
Bounds_ ==
  LET imp == BoundImplies(a[1], a[2], b[1], b[2])
      brute == \A pt \in Pieces(a, b) : Truth(a, pt) => Truth(b, pt)
      \* an equality whose only point is no dyadic number
      hidden == a[2] = "eq" /\ \A pt \in Pieces(a, b) : ~Truth(a, pt)
      sameeq == PScale(PLinCoef(b[1], 1), a[1]) = PScale(PLinCoef(a[1], 1), b[1])
  IN
  /\ SameVarBounds(a[1], b[1])
  /\ imp => brute
  /\ ~hidden /\ ~(b[2] = "eq" /\ a[2] # "eq") => (imp = brute)
  /\ a[2] # "eq" /\ b[2] = "eq" => ~imp
  /\ hidden /\ b[2] = "eq" => (imp = sameeq)
  /\ BoundImplies(a[1], a[2], a[1], a[2])
  /\ imp => ~Refuted({a}, b[1], b[2])
  \* rewriting keeps implications
  /\ \A f \in {<<-2, 0>>, <<1, 1>>} :
        imp = BoundImplies(PScale(f, a[1]), IF f[1] < 0 THEN Flip(a[2]) ELSE a[2], b[1], b[2])
  /\ SameEntry(a[1], a[2], b[1], b[2]) = (imp /\ BoundImplies(b[1], b[2], a[1], a[2]))
  /\ IsNonneg(a[1], a[2]) = SameEntry(a[1], a[2], X1, "ge")

(* C12 C13: several variables *)
Pts2 == {[v \in Slots |-> IF v = 1 THEN DNorm(i, 1) ELSE IF v = 2 THEN DNorm(j, 1) ELSE DZero] : i \in -8..8, j \in -8..8}
Multi_ ==
  LET same == SameEntry(a[1], a[2], b[1], b[2])
      T(p, pt) == Holds(PEval(p[1], pt), p[2])
  IN
  \* entries taken for the same have the same solutions, and scaled ones are
  \* the same
  /\ same => \A pt \in Pts2 : T(a, pt) = T(b, pt)
  /\ SameEntry(a[1], a[2], PScale(c, a[1]), IF c[1] < 0 THEN Flip(a[2]) ELSE a[2])
  /\ same = SameEntry(b[1], b[2], a[1], a[2])
  /\ Refuted({a}, b[1], b[2]) => \E g \in Grid(PVars(a[1]) \cup PVars(b[1])) : Holds(At(a[1], g), a[2]) /\ ~Holds(At(b[1], g), b[2])
  \* the grid finds what there is to find among these: a non-constant linear
  \* constraint implies only what it is proportional to
  /\ (a[2] = "le" /\ b[2] = "le" /\ ~PIsConst(a[1]) /\ ~PIsConst(b[1]) /\ ~Refuted({a}, b[1], b[2]))
        => LET p == PSub(a[1], PConst(PConstTerm(a[1]))) q == PSub(b[1], PConst(PConstTerm(b[1]))) IN Proportional(p, q, 1)

(* C22: the causes of refusals are what makes a request meaningless *)
Reasons_ ==
  LET sx == AIs1(a) sy == AIs1(b) No(ans) == ans.t = "inv"
  IN
  /\ No(AnsPlus(a, b)) = ~ConformFor("plus", a, b, sx, sy)
  /\ No(AnsMinus(a, b)) = ~ConformFor("minus", a, b, sx, sy)
  /\ No(AnsMul(a, b)) = ~ConformFor("mul", a, b, sx, sy)
  /\ No(AnsHStack(<<a, b>>)) = ~ConformFor("hstack", a, b, sx, sy)
  /\ No(AnsVStack(<<a, b>>)) = ~ConformFor("vstack", a, b, sx, sy)
  /\ No(AnsHStack(<<a, b, a>>)) = ~(ConformFor("hstack", a, b, sx, sy) /\ ConformFor("hstack", b, a, sy, sx))
  /\ No(AnsAt(a, c[1], c[2])) = OutOfBounds(c, <<a.r, a.c>>)
  /\ a.c = 1 => (No(AnsAtVec(a, c[1])) = OutOfBounds(<<c[1], 0>>, <<a.r, a.c>>))
  /\ c[1] >= 0 => (No(AnsPow(a, c[2])) = (a.r # a.c \/ c[2] < 0))
  \* entries put into rows of a.c, b.c, ..: meaningless exactly when some row is ragged
  /\ LET ls == <<a.c, b.c, IF c[1] < 1 THEN a.c ELSE c[1]>>
         n == ls[1] + ls[2] + ls[3]
     IN  No(AnsMatrix(ls, [k \in 1..n |-> X1])) = (\E r \in 0..3, k \in 1..4 : RaggedAs(ls, <<ls[1], k, r>>))

RingLaws == What = "ring" /\ chosen => Ring
CalculusLaws == What = "calculus" /\ chosen => Calculus
ArrayLaws == What = "arrays" /\ chosen => Arrays_
StackLaws == What = "stack" /\ chosen => Stack_
BoundLaws == What = "bounds" /\ chosen => Bounds_
ReasonLaws == What = "reasons" /\ chosen => Reasons_
MultiLaws == What = "multi" /\ chosen => Multi_
=============================================================================
