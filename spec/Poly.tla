-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* The mathematical objects the library denotes: multivariate polynomials  *)
(* with exact dyadic coefficients.                                         *)
(*                                                                         *)
(*   dyadic      n / 2^k, exactly (Dyadic.tla)                             *)
(*   exponents   a tuple of NS naturals, one slot per variable             *)
(*   polynomial  a function from a finite set of exponent tuples to        *)
(*               non-zero dyadics (the zero polynomial is the empty one)   *)
(*                                                                         *)
(* Normal forms are unique, so two polynomials are equal as functions iff  *)
(* they are equal as TLA+ values.                                          *)
(***************************************************************************)
EXTENDS Dyadic, FiniteSets, FiniteSetsExt

CONSTANT NS                    \* number of variable slots

Slots == 1..NS

-----------------------------------------------------------------------------
(* Exponent tuples *)

EZero == [i \in Slots |-> 0]
EUnit(v) == [i \in Slots |-> IF i = v THEN 1 ELSE 0]
EAdd(a, b) == [i \in Slots |-> a[i] + b[i]]
EDeg(a) == FoldLeft(LAMBDA x, y : x + y, 0, a)

-----------------------------------------------------------------------------
(* Polynomials *)

\* the polynomial denoted by a list of <<exponents, coefficient>> terms
FromTerms(ts) ==
  LET D == TLCEval({ts[i][1] : i \in DOMAIN ts})
      C == TLCEval([e \in D |->
             FoldLeft(LAMBDA acc, t : IF t[1] = e THEN DAdd(acc, t[2]) ELSE acc,
                      DZero, ts)])
  IN  TLCEval([e \in {x \in D : C[x][1] # 0} |-> C[e]])

PZero == [e \in {} |-> DZero]
PConst(c) == IF c[1] = 0 THEN PZero ELSE [e \in {EZero} |-> c]
PInt(n) == PConst(DInt(n))
POne == PConst(DOne)
PVar(v) == [e \in {EUnit(v)} |-> DOne]

PCoef(p, e) == IF e \in DOMAIN p THEN p[e] ELSE DZero

PAdd(p, q) ==
  IF DOMAIN p = {} THEN q
  ELSE IF DOMAIN q = {} THEN p
  ELSE LET D == DOMAIN p \union DOMAIN q
           C == TLCEval([e \in D |-> DAdd(PCoef(p, e), PCoef(q, e))])
       IN  TLCEval([e \in {x \in D : C[x][1] # 0} |-> C[e]])

PScale(c, p) ==
  IF c[1] = 0 THEN PZero
  ELSE IF c = DOne THEN p
  ELSE TLCEval([e \in DOMAIN p |-> DMul(c, p[e])])

PNeg(p) == PScale(<<-1, 0>>, p)
PSub(p, q) == PAdd(p, PNeg(q))

\* p times the single term c * x^d
PShift(p, d, c) ==
  LET D == TLCEval({EAdd(e, d) : e \in DOMAIN p})
  IN  TLCEval([f \in D |->
        DMul(c, p[[i \in Slots |-> f[i] - d[i]]])])

PMul(p, q) ==
  IF Cardinality(DOMAIN p) > Cardinality(DOMAIN q)
  THEN FoldSet(LAMBDA e, acc : PAdd(acc, PShift(p, e, q[e])), PZero, DOMAIN q)
  ELSE FoldSet(LAMBDA e, acc : PAdd(acc, PShift(q, e, p[e])), PZero, DOMAIN p)

RECURSIVE PPow(_, _)
PPow(p, n) == IF n = 0 THEN POne ELSE IF n = 1 THEN p ELSE PMul(p, PPow(p, n - 1))

PSum(ps) == FoldLeft(LAMBDA acc, p : PAdd(acc, p), PZero, ps)

PDeriv(p, v) ==
  LET S == {e \in DOMAIN p : e[v] > 0}
      D == TLCEval({[e EXCEPT ![v] = @ - 1] : e \in S})
  IN  TLCEval([f \in D |-> LET e == [f EXCEPT ![v] = @ + 1]
                           IN  DMul(DInt(e[v]), p[e])])

\* simultaneous substitution: s is a function from a set of variables
\* to polynomials; variables outside DOMAIN s stay.
PSubst(p, s) ==
  LET Term(e) ==
        LET rest == [i \in Slots |-> IF i \in DOMAIN s THEN 0 ELSE e[i]]
            base == [x \in {rest} |-> p[e]]
        IN  FoldSet(LAMBDA v, acc : IF e[v] = 0 THEN acc ELSE PMul(acc, PPow(s[v], e[v])),
                    base, DOMAIN s)
  IN  FoldSet(LAMBDA e, acc : PAdd(acc, Term(e)), PZero, DOMAIN p)

PDegree(p) == IF DOMAIN p = {} THEN 0 ELSE Max({EDeg(e) : e \in DOMAIN p})
PVars(p) == {v \in Slots : \E e \in DOMAIN p : e[v] > 0}
PConstTerm(p) == PCoef(p, EZero)
PLinCoef(p, v) == PCoef(p, EUnit(v))
PIsConst(p) == DOMAIN p \subseteq {EZero}

\* value at a point: env is a function Slots -> dyadic
PEval(p, pt) ==
  FoldSet(LAMBDA e, acc :
      DAdd(acc, FoldLeft(LAMBDA a, v : DMul(a, DPow(pt[v], e[v])), p[e], [i \in Slots |-> i])),
    DZero, DOMAIN p)
=============================================================================
