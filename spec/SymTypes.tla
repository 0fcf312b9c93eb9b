------------------------------ MODULE SymTypes ------------------------------
(***************************************************************************)
(* From the projection recorded by the driver to the values of the heap.   *)
(***************************************************************************)
EXTENDS Api

ScalarKinds == {"K", "Var", "Mon", "Pol"}
VectorKinds == {"KV", "VV", "MV", "PV"}
MatrixKinds == {"KM", "VM", "MM", "PM"}
NumKinds == {"f64", "int", "VD", "pVD", "D", "pD"}
ExprKinds == ScalarKinds \union VectorKinds \union MatrixKinds

\* an entry: a list of terms <<n, k, exponents>>, or <<sign, k, exponents,
\* digits>> for a coefficient whose numerator is 2^30 or more
Terms(e) == [i \in DOMAIN e |->
  <<e[i][3], IF Len(e[i]) = 3 THEN <<e[i][1], e[i][2]>> ELSE <<e[i][1], e[i][2]>> \o e[i][4]>>]
EntPoly(e) == FromTerms(Terms(e))

\* no like terms, and no zero term unless it is the constant zero alone
EntCanonical(e, p) ==
  \/ Len(e) = Cardinality(DOMAIN p)
  \/ Len(e) = 1 /\ e[1][1] = 0 /\ e[1][3] = EZero

ToVal(o) ==
  LET es == o.e
      ps == TLCEval([i \in DOMAIN es |-> EntPoly(es[i])])
  IN  [t |-> "e", k |-> o.k, r |-> o.r, c |-> o.c, p |-> ps,
       mal |-> o.mal, irr |-> o.irr, bad |-> o.bad, ls |-> o.ls,
       can |-> ~o.mal /\ \A i \in DOMAIN es : EntCanonical(es[i], ps[i]),
       zt |-> \E i \in DOMAIN es : \E j \in DOMAIN es[i] : es[i][j][1] = 0]

ToCon(o) == [t |-> "c", k |-> o.k, l |-> ToVal(o.l), rr |-> ToVal(o.rr), s |-> o.s]

ToHeap(o) == IF o.t = "c" THEN ToCon(o) ELSE ToVal(o)

\* the array a heap value denotes
Den(x) == Arr(x.r, x.c, x.p)

Mentions(x) == IF x.t = "c" THEN AVars(x.l) \union AVars(x.rr) ELSE AVars(x)
Foreign(x) == NS \in Mentions(x)

\* the simplest kind of scalar denoting p
SimplestScalar(p) ==
  IF PIsConst(p) THEN "K"
  ELSE IF Cardinality(DOMAIN p) > 1 THEN "Pol"
  ELSE LET e == CHOOSE x \in DOMAIN p : TRUE
       IN  IF EDeg(e) = 1 /\ p[e] = DOne THEN "Var" ELSE "Mon"
=============================================================================
