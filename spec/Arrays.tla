------------------------------- MODULE Arrays -------------------------------
(***************************************************************************)
(* Scalars, vectors and matrices of polynomials.  An array is a record     *)
(* [r, c, p]: r rows, c columns, p the r*c entries row by row.  A scalar   *)
(* is a 1x1 array, a vector of length n an n x 1 array.                    *)
(***************************************************************************)
EXTENDS Poly

Arr(r, c, p) == [r |-> r, c |-> c, p |-> p]
Sca(p) == Arr(1, 1, <<p>>)

AIs1(a) == a.r = 1 /\ a.c = 1
ASame(a, b) == a.r = b.r /\ a.c = b.c
AEnt(a, i, j) == a.p[(i - 1) * a.c + j]
AEq(a, b) == a.r = b.r /\ a.c = b.c /\ a.p = b.p

AMap(a, f(_)) == Arr(a.r, a.c, TLCEval([k \in 1..Len(a.p) |-> f(a.p[k])]))

\* entry k of a, a 1x1 array standing for every entry
AB(a, k) == IF AIs1(a) THEN a.p[1] ELSE a.p[k]

\* entrywise operation with scalar broadcast; defined when ASumOk
ASumOk(a, b) == ASame(a, b) \/ AIs1(a) \/ AIs1(b)
AZip(a, b, f(_, _)) ==
  LET s == IF AIs1(a) THEN b ELSE a
  IN  Arr(s.r, s.c, TLCEval([k \in 1..(s.r * s.c) |-> f(AB(a, k), AB(b, k))]))
AAdd(a, b) == AZip(a, b, PAdd)
ASub(a, b) == AZip(a, b, PSub)

AMulOk(a, b) == a.c = b.r \/ AIs1(a) \/ AIs1(b)
AMatMul(a, b) ==
  Arr(a.r, b.c,
      TLCEval([k \in 1..(a.r * b.c) |->
         LET i == ((k - 1) \div b.c) + 1
             j == ((k - 1) % b.c) + 1
         IN  FoldLeft(LAMBDA acc, x : PAdd(acc, PMul(AEnt(a, i, x), AEnt(b, x, j))),
                      PZero, [x \in 1..a.c |-> x])]))
AMul(a, b) ==
  IF a.c = b.r THEN AMatMul(a, b)
  ELSE IF AIs1(a) THEN AMap(b, LAMBDA p : PMul(a.p[1], p))
  ELSE AMap(a, LAMBDA p : PMul(p, b.p[1]))

AIdentity(n) ==
  Arr(n, n, [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN POne ELSE PZero])
RECURSIVE APow(_, _)
APow(a, n) == IF n = 0 THEN AIdentity(a.r) ELSE IF n = 1 THEN a ELSE AMul(APow(a, n - 1), a)

ATranspose(a) ==
  Arr(a.c, a.r,
      TLCEval([k \in 1..(a.r * a.c) |-> AEnt(a, ((k - 1) % a.r) + 1, ((k - 1) \div a.r) + 1)]))

ADeriv(a, v) == AMap(a, LAMBDA p : PDeriv(p, v))
ASubst(a, s) == AMap(a, LAMBDA p : PSubst(p, s))

\* stacking a sequence of arrays
AHOk(as) == Len(as) > 0 /\ \A i \in DOMAIN as : as[i].r = as[1].r
AVOk(as) == Len(as) > 0 /\ \A i \in DOMAIN as : as[i].c = as[1].c
AHStack(as) ==
  LET R == as[1].r
      RowOf(a, i) == SubSeq(a.p, (i - 1) * a.c + 1, i * a.c)
      W == FoldLeft(LAMBDA x, a : x + a.c, 0, as)
      Row(i) == FoldLeft(LAMBDA acc, a : acc \o RowOf(a, i), <<>>, as)
  IN  Arr(R, W, TLCEval(FoldLeft(LAMBDA acc, i : acc \o Row(i), <<>>, [i \in 1..R |-> i])))
AVStack(as) ==
  Arr(FoldLeft(LAMBDA x, a : x + a.r, 0, as), as[1].c,
      TLCEval(FoldLeft(LAMBDA acc, a : acc \o a.p, <<>>, as)))

ADegree(a) == Max({PDegree(a.p[k]) : k \in 1..Len(a.p)})
AVars(a) == UNION {PVars(a.p[k]) : k \in 1..Len(a.p)}
AIsConst(a) == \A k \in 1..Len(a.p) : PIsConst(a.p[k])
AIsZero(a) == \A k \in 1..Len(a.p) : DOMAIN a.p[k] = {}
=============================================================================
