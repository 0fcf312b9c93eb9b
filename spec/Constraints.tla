---------------------------- MODULE Constraints -----------------------------
(***************************************************************************)
(* Constraints: a left array, a right array (a 1x1 side standing for every *)
(* entry) and a sense "le", "ge", "eq".  Entry by entry, a constraint is   *)
(* the pair <<d, s>>: the polynomial left - right compared with 0.         *)
(***************************************************************************)
EXTENDS Arrays

Senses == {"le", "ge", "eq"}
Flip(s) == IF s = "le" THEN "ge" ELSE IF s = "ge" THEN "le" ELSE s

\* sides a, b are comparable
CmpOk(a, b) == ASumOk(a, b)
CDiff(l, r) == ASub(l, r)

\* does the number x satisfy  x s 0 ?
Holds(x, s) ==
  CASE s = "le" -> x[1] <= 0
    [] s = "ge" -> x[1] >= 0
    [] s = "eq" -> x[1] = 0

\* p and q are non-zero and q = f * p with f > 0 (sgn = 1) or f < 0 (sgn = -1)
Proportional(p, q, sgn) ==
  /\ DOMAIN p = DOMAIN q
  /\ DOMAIN p # {}
  /\ LET e == CHOOSE x \in DOMAIN p : TRUE
     IN  /\ DSign(p[e]) * DSign(q[e]) = sgn
         /\ PScale(q[e], p) = PScale(p[e], q)

\* sufficient for equal solution sets, and what rewriting is expected to keep:
\* the same comparison up to a non-zero factor
SameEntry(d1, s1, d2, s2) ==
  IF PIsConst(d1) /\ PIsConst(d2)
  THEN Holds(PConstTerm(d1), s1) = Holds(PConstTerm(d2), s2)
  ELSE \/ s1 = s2 /\ Proportional(d1, d2, 1)
       \/ Flip(s1) = s2 /\ Proportional(d1, d2, -1)

-----------------------------------------------------------------------------
(* Implication between scalar constraints <<d1, s1>> and <<d2, s2>>.       *)

\* linear in exactly one variable
LinIn1(d) == Cardinality(PVars(d)) = 1 /\ PDegree(d) = 1
TheVar(d) == CHOOSE v \in PVars(d) : TRUE

\* a*x + b s 0 as a bound on x: sense after dividing by a
BoundSense(d, s) == IF DSign(PLinCoef(d, TheVar(d))) > 0 THEN s ELSE Flip(s)
\* compare the bounds -b1/a1 and -b2/a2 : sign of (-b1/a1) - (-b2/a2)
BoundCmp(d1, d2) ==
  LET a1 == PLinCoef(d1, TheVar(d1))
      a2 == PLinCoef(d2, TheVar(d2))
      b1 == PConstTerm(d1)
      b2 == PConstTerm(d2)
      \* (-b1*a2 + b2*a1) / (a1*a2)
      num == DSub(DMul(b2, a1), DMul(b1, a2))
  IN  DSign(num) * DSign(a1) * DSign(a2)

\* exact decision for two bounds on the same variable
BoundImplies(d1, s1, d2, s2) ==
  LET t1 == BoundSense(d1, s1)
      t2 == BoundSense(d2, s2)
      c == BoundCmp(d1, d2)
  IN  CASE t1 = "le" -> t2 = "le" /\ c <= 0
        [] t1 = "ge" -> t2 = "ge" /\ c >= 0
        [] t1 = "eq" -> CASE t2 = "eq" -> c = 0
                          [] t2 = "le" -> c <= 0
                          [] t2 = "ge" -> c >= 0

SameVarBounds(d1, d2) == LinIn1(d1) /\ LinIn1(d2) /\ PVars(d1) = PVars(d2)

\* the points used to refute a claimed implication: a grid over the variables
\* that occur, finer for fewer variables
GridVals(n) ==
  IF n <= 1 THEN {DNorm(k, 2) : k \in -72..72}
  ELSE IF n = 2 THEN {DNorm(k, 1) : k \in -12..12}
  ELSE {DInt(k) : k \in -2..2}
\* and points far away
FarVals(n) ==
  IF n <= 1 THEN {DInt(k) : k \in {-1000000000, -1000, -100, -30, 30, 100, 1000, 1000000000}}
  ELSE IF n <= 3 THEN {DInt(-40), DInt(40)} ELSE {}
\* and where a bound is met with equality, if that is a dyadic number
Root(d) ==
  LET a == PLinCoef(d, TheVar(d)) b == PConstTerm(d)
  IN  IF a[1] = 1 \/ a[1] = -1 THEN (IF Len(a) = 2 THEN {DMul(DMul(b, <<-a[1], 0>>), DPow(DInt(2), a[2]))} ELSE {})
      ELSE {DMul(DMul(b, <<-DSign(a), k>>), DOne) : k \in {j \in 1..10 : a = <<DSign(a) * 2^j, 0>>}}
Roots(ds, v) == UNION {Root(d) : d \in {x \in ds : LinIn1(x) /\ PVars(x) = {v}}}
Grid(vs) == [vs -> GridVals(Cardinality(vs)) \cup FarVals(Cardinality(vs))]
At(d, g) == PEval(d, [v \in Slots |-> IF v \in DOMAIN g THEN g[v] ELSE DZero])

\* ds: set of <<d, s>> that all hold; a point of the grid refuting the claim
Refuted(ds, d2, s2) ==
  LET all == {d2} \cup {x[1] : x \in ds}
      vs == UNION {PVars(d) : d \in all}
      no(g) == ~Holds(At(d2, g), s2) /\ \A x \in ds : Holds(At(x[1], g), x[2])
  IN  \/ LinIn1(d2) /\ \E r \in Roots(all, TheVar(d2)), g \in [vs \ {TheVar(d2)} -> {DInt(k) : k \in -2..2}] : no((TheVar(d2) :> r) @@ g)
      \/ \E g \in Grid(vs) : no(g)

-----------------------------------------------------------------------------
(* Nonnegativity: equivalent to v >= 0 for a single variable v             *)
IsNonneg(d, s) ==
  /\ LinIn1(d)
  /\ PConstTerm(d) = DZero
  /\ \/ s = "ge" /\ DSign(PLinCoef(d, TheVar(d))) > 0
     \/ s = "le" /\ DSign(PLinCoef(d, TheVar(d))) < 0
=============================================================================
