---------------------------- MODULE SymbolicMath ----------------------------
(***************************************************************************)
(* The design: a program holds a heap of values and makes calls.  A call   *)
(* reads values, appends what it returns and changes nothing else; a       *)
(* meaningless request is refused and changes nothing at all.              *)
(*                                                                         *)
(* Each expression on the heap carries its denotation (an array of         *)
(* polynomials, computed by the operators of Api.tla) and, as a ghost, an  *)
(* array of trees (Terms.tla) that records how it was built.  The          *)
(* invariants tie both together: every value means what the tree means,    *)
(* normal forms are normal, equal functions have equal denotations, and    *)
(* every constraint derived from another one has the same solutions.       *)
(*                                                                         *)
(* `prog' is the history of calls, in the form the driver replays.         *)
(***************************************************************************)
EXTENDS Api, Terms

CONSTANTS Steps,      \* calls made
          Ops,        \* kinds of calls made
          PoolNo      \* which literals the program starts with

VARIABLES heap, prog, refused
vars == <<heap, prog, refused>>

-----------------------------------------------------------------------------
(* Heap values                                                             *)

\* the choices made at random when behaviours are generated (Gen.tla)
Pick(S) == S
Tracked == {1, 2}
Mates(op, i) == DOMAIN heap
Replacements == DOMAIN heap
\* whether the ghosts are kept
Ghost == TRUE
E(den, tr) == [t |-> "e", d |-> den, tr |-> IF Ghost THEN tr ELSE <<>>]
\* ghost of a constraint: the sides and sense whose solutions it must have,
\* for every entry a pair of trees
Con(l, r, s, g, gs) == [t |-> "c", l |-> l, r |-> r, s |-> s, g |-> IF Ghost THEN g ELSE <<>>, gs |-> gs]

x == 1  y == 2
PX == PVar(1)
PY == PVar(2)
\* a literal and its tree
LitE(r, c, ts) == E(Arr(r, c, [k \in 1..Len(ts) |-> ts[k][1]]), [k \in 1..Len(ts) |-> ts[k][2]])
LK(n) == <<PInt(n), TK(DInt(n))>>
LX == <<PX, TV(x)>>
LY == <<PY, TV(y)>>
L2X == <<PScale(<<2, 0>>, PX), TMul(TK(DInt(2)), TV(x))>>
LXmY == <<PSub(PX, PY), TSub(TV(x), TV(y))>>
LXpY1 == <<PAdd(PAdd(PX, PY), POne), TAdd(TAdd(TV(x), TV(y)), TK(DOne))>>
LX2Y == <<PMul(PMul(PX, PX), PY), TMul(TMul(TV(x), TV(x)), TV(y))>>
LXX == <<PMul(PX, PX), TMul(TV(x), TV(x))>>

Pool ==
  CASE PoolNo = 1 -> << LitE(1, 1, <<LX>>), LitE(1, 1, <<LY>>), LitE(1, 1, <<LK(-2)>>), LitE(1, 1, <<LXpY1>>) >>
    [] PoolNo = 2 -> << LitE(1, 1, <<LX2Y>>), LitE(1, 1, <<LXmY>>), LitE(2, 1, <<LX, LXpY1>>), LitE(1, 1, <<LK(3)>>) >>
    [] PoolNo = 3 -> << LitE(2, 2, <<LX, LY, LK(1), L2X>>), LitE(2, 1, <<LXmY, LXX>>), LitE(1, 2, <<LK(0), LY>>), LitE(1, 1, <<LX>>) >>
    [] PoolNo = 5 -> << LitE(1, 1, <<LX>>), LitE(1, 1, <<LXmY>>) >>
    [] PoolNo = 6 -> << LitE(2, 2, <<LX, LK(-1), LXmY, LY>>), LitE(1, 1, <<LX>>) >>
    [] PoolNo = 4 -> << LitE(2, 3, <<LX, LK(2), LXmY, LY, LXX, LK(0)>>), LitE(3, 2, <<LK(1), LX, LY, LK(-1), LXpY1, LX>>), LitE(1, 1, <<LXmY>>) >>

Exprs == {i \in DOMAIN heap : heap[i].t = "e"}
Constrs == {i \in DOMAIN heap : heap[i].t = "c"}
Scals == {i \in Exprs : AIs1(heap[i].d)}

\* TLC computes with 32-bit integers: bounds on the coefficients to come
Cap == 2^20
CMul(m, n) == IF m = 0 \/ n = 0 THEN 0 ELSE IF m > Cap \div n THEN Cap + 1 ELSE m * n
RECURSIVE CPow(_, _)
CPow(m, n) == IF n <= 0 THEN 1 ELSE CMul(m, CPow(m, n - 1))
PNorm(p) == FoldSet(LAMBDA e, acc : LET n == acc + CMul(Abs(p[e][1]), 1) IN IF n > Cap THEN Cap + 1 ELSE n, 0, DOMAIN p)
            * Max({1} \cup {2^p[e][2] : e \in DOMAIN p})
ANorm(a) == LET n == Max({1} \cup {PNorm(a.p[k]) : k \in 1..Len(a.p)}) IN IF n > Cap THEN Cap + 1 ELSE n
MulFits(a, b) == CMul(CMul(ANorm(a), ANorm(b)), a.c) <= Cap
PowFits(a, n) == CPow(CMul(ANorm(a), a.r), n) <= Cap
SubstFits(a, b) == CMul(ANorm(a), CPow(ANorm(b), ADegree(a))) <= Cap

\* nothing larger than this is built
Small(a) == a.r * a.c <= 9 /\ \A k \in 1..Len(a.p) : PDegree(a.p[k]) <= 6 /\ Cardinality(DOMAIN a.p[k]) <= 14

-----------------------------------------------------------------------------
(* Trees of results                                                        *)

TLen(v) == v.d.r * v.d.c
TEnt(v, i, j) == v.tr[(i - 1) * v.d.c + j]
TB(v, k) == IF AIs1(v.d) THEN v.tr[1] ELSE v.tr[k]
TZip(a, b, f(_, _)) == [k \in 1..(IF AIs1(a.d) THEN TLen(b) ELSE TLen(a)) |-> f(TB(a, k), TB(b, k))]
TProd(a, b) ==
  IF a.d.c = b.d.r
  THEN [k \in 1..(a.d.r * b.d.c) |->
         LET i == ((k - 1) \div b.d.c) + 1
             j == ((k - 1) % b.d.c) + 1
         IN  FoldLeft(LAMBDA acc, n : TAdd(acc, TMul(TEnt(a, i, n), TEnt(b, n, j))), TK(DZero), [n \in 1..a.d.c |-> n])]
  ELSE TZip(a, b, TMul)
TTrans(v) == [k \in 1..TLen(v) |-> TEnt(v, ((k - 1) % v.d.r) + 1, ((k - 1) \div v.d.r) + 1)]
TIdent(n) == [k \in 1..(n * n) |-> TK(IF (k - 1) \div n = (k - 1) % n THEN DOne ELSE DZero)]
RECURSIVE TPow(_, _)
TPow(v, n) == IF n = 0 THEN TIdent(v.d.r) ELSE TProd(E(v.d, TPow(v, n - 1)), v)

-----------------------------------------------------------------------------
(* Calls                                                                   *)

Refuse(step) == heap' = heap /\ prog' = Append(prog, step) /\ refused' = refused + 1
Return(step, vs) ==
  /\ \A i \in DOMAIN vs : IF vs[i].t = "e" THEN Small(vs[i].d) ELSE Small(vs[i].l) /\ Small(vs[i].r)
  /\ heap' = heap \o vs
  /\ prog' = Append(prog, step @@ [o |-> Len(heap) + 1])
  /\ refused' = refused

\* an answer of Api.tla with the trees of the results
Answer(step, ans, trs) ==
  CASE ans.t = "inv" -> Refuse(step)
    [] ans.t = "val" -> Return(step, [i \in DOMAIN ans.v |-> E(ans.v[i], trs[i])])

D(i) == heap[i].d
Binary(op) ==
  \E i \in Pick(Exprs) : \E j \in Pick(Exprs \cap Mates(op, i)) :
    LET st == [op |-> op, a |-> <<i, j>>]
        a == heap[i] b == heap[j]
    IN  CASE op = "plus" -> Answer(st, AnsPlus(D(i), D(j)), <<IF ASumOk(D(i), D(j)) THEN TZip(a, b, TAdd) ELSE <<>>>>)
          [] op = "minus" -> Answer(st, AnsMinus(D(i), D(j)), <<IF ASumOk(D(i), D(j)) THEN TZip(a, b, TSub) ELSE <<>>>>)
          [] op = "mul" -> MulFits(D(i), D(j)) /\ Answer(st, AnsMul(D(i), D(j)), <<IF AMulOk(D(i), D(j)) THEN TProd(a, b) ELSE <<>>>>)
Power == \E i \in Pick(Exprs), n \in Pick({-1, 0, 2, 3}) :
  PowFits(D(i), n) /\ Answer([op |-> "pow", a |-> <<i>>, n |-> <<n>>], AnsPow(D(i), n), <<IF n < 0 \/ D(i).r # D(i).c THEN <<>> ELSE TPow(heap[i], n)>>)
Transp == \E i \in Pick(Exprs) : Answer([op |-> "tr", a |-> <<i>>], AnsTranspose(D(i)), <<TTrans(heap[i])>>)
Deriv == \E i \in Pick(Exprs), v \in Pick(Tracked) :
  Answer([op |-> "deriv", a |-> <<i>>, v |-> <<v>>], AnsDeriv(D(i), v), <<[k \in 1..TLen(heap[i]) |-> <<"d", heap[i].tr[k], v>>]>>)
Subst == \E i \in Pick(Exprs), j \in Pick(Scals), v \in Pick(Tracked) :
  SubstFits(D(i), D(j)) /\ Answer([op |-> "subst", a |-> <<i, j>>, v |-> <<v>>], AnsSubst(D(i), v, D(j)),
         <<[k \in 1..TLen(heap[i]) |-> <<"s", heap[i].tr[k], [w \in {v} |-> heap[j].tr[1]]>>]>>)
KeyPairs == {<<x, y>>}
SubstMap == \E i \in Pick(Exprs), j \in Pick(Exprs \cap Replacements), k \in Pick(Exprs \cap Replacements), q \in Pick(KeyPairs) :
  LET m == << <<q[1], D(j)>>, <<q[2], D(k)>> >>
  IN  CMul(ANorm(D(i)), CPow(IF ANorm(D(j)) > ANorm(D(k)) THEN ANorm(D(j)) ELSE ANorm(D(k)), ADegree(D(i)))) <= Cap
      /\ Answer([op |-> "substmap", a |-> <<i>>, m |-> << <<q[1], j>>, <<q[2], k>> >>], AnsSubstMap(D(i), m),
             <<[n \in 1..TLen(heap[i]) |-> <<"s", heap[i].tr[n], [w \in {q[1], q[2]} |-> IF w = q[1] THEN heap[j].tr[1] ELSE heap[k].tr[1]]>>]>>)
Entry == \E i \in Pick(Exprs), r \in Pick(-1..2), c \in Pick(-1..2) :
  Answer([op |-> "at", a |-> <<i>>, n |-> <<r, c>>], AnsAt(D(i), r, c),
         <<IF r < 0 \/ c < 0 \/ r >= D(i).r \/ c >= D(i).c THEN <<>> ELSE <<TEnt(heap[i], r + 1, c + 1)>>>>)
Stack(op) == \E i \in Pick(Exprs) : \E j \in Pick(Exprs \cap Mates(op, i)) :
  LET a == heap[i] b == heap[j]
      th == FlattenSeq([r \in 1..a.d.r |-> [c \in 1..(a.d.c + b.d.c) |-> IF c <= a.d.c THEN TEnt(a, r, c) ELSE TEnt(b, r, c - a.d.c)]])
  IN  IF op = "hstack"
      THEN Answer([op |-> op, a |-> <<i, j>>], AnsHStack(<<D(i), D(j)>>), <<IF D(i).r = D(j).r THEN th ELSE <<>>>>)
      ELSE Answer([op |-> op, a |-> <<i, j>>], AnsVStack(<<D(i), D(j)>>), <<a.tr \o b.tr>>)

\* constraints
Compare == \E i \in Pick(Exprs) : \E j \in Pick(Exprs \cap Mates("plus", i)), s \in Pick(Senses) :
  LET st == [op |-> "cmp", s |-> s, a |-> <<i, j>>, n |-> <<1>>]
      a == heap[i] b == heap[j]
      n == IF AIs1(a.d) THEN TLen(b) ELSE TLen(a)
  IN  IF ~ASumOk(D(i), D(j)) THEN Refuse(st)
      ELSE Return(st, <<Con(a.d, b.d, s, [k \in 1..n |-> <<TB(a, k), TB(b, k)>>], s)>>)
CN(c) == IF AIs1(c.l) THEN Len(c.r.p) ELSE Len(c.l.p)
CShp(c) == IF AIs1(c.l) THEN c.r ELSE c.l
Side(c, f(_)) == Arr(CShp(c).r, CShp(c).c, [k \in 1..CN(c) |-> f(k)])
CDif(c, k) == PSub(AB(c.l, k), AB(c.r, k))
CSimplify == \E i \in Pick(Constrs) :
  LET c == heap[i]
  IN  Return([op |-> "cassimp", a |-> <<i>>],
             <<Con(Side(c, LAMBDA k : PSub(CDif(c, k), PConst(PConstTerm(CDif(c, k))))),
                   Side(c, LAMBDA k : PNeg(PConst(PConstTerm(CDif(c, k))))), c.s, c.g, c.gs)>>)
CScale == \E i \in Pick(Constrs), f \in Pick({<<-3, 0>>, <<1, 1>>}) :
  LET c == heap[i]
  IN  CMul(3, ANorm(c.l)) <= Cap /\ CMul(3, ANorm(c.r)) <= Cap /\ Return([op |-> "cscale", a |-> <<i>>, f |-> f],
             <<Con(AMap(c.l, LAMBDA p : PScale(f, p)), AMap(c.r, LAMBDA p : PScale(f, p)),
                   IF f[1] < 0 THEN Flip(c.s) ELSE c.s, c.g, c.gs)>>)
CSubst == \E i \in Pick(Constrs), j \in Pick(Scals), v \in Pick(Tracked) :
  LET c == heap[i]
      f == [w \in {v} |-> heap[j].d.p[1]]
      g == [w \in {v} |-> heap[j].tr[1]]
  IN  SubstFits(c.l, D(j)) /\ SubstFits(c.r, D(j)) /\ Return([op |-> "csubst", a |-> <<i, j>>, v |-> <<v>>],
             <<Con(ASubst(c.l, f), ASubst(c.r, f), c.s, [k \in 1..CN(c) |-> << <<"s", c.g[k][1], g>>, <<"s", c.g[k][2], g>> >>], c.gs)>>)
CEntryAt == \E i \in Pick(Constrs), r \in Pick(0..1), cc \in Pick(0..1) :
  LET c == heap[i]
      st == [op |-> "cat", a |-> <<i>>, n |-> <<r, cc>>]
      k == r * CShp(c).c + cc + 1
  IN  IF r >= CShp(c).r \/ cc >= CShp(c).c THEN Refuse(st)
      ELSE Return(st, <<Con(Sca(AB(c.l, k)), Sca(AB(c.r, k)), c.s, <<c.g[k]>>, c.gs)>>)
Compile == \E i \in Pick(Constrs) :
  LET c == heap[i]
  IN  Return([op |-> "compile", a |-> <<i>>],
             [k \in 1..CN(c) |-> Con(Sca(AB(c.l, k)), Sca(AB(c.r, k)), c.s, <<c.g[k]>>, c.gs)])

Do(op) ==
  CASE op \in {"plus", "minus", "mul"} -> Binary(op)
    [] op = "pow" -> Power
    [] op = "tr" -> Transp
    [] op = "deriv" -> Deriv
    [] op = "subst" -> Subst
    [] op = "substmap" -> SubstMap
    [] op = "at" -> Entry
    [] op \in {"hstack", "vstack"} -> Stack(op)
    [] op = "cmp" -> Compare
    [] op = "cassimp" -> CSimplify
    [] op = "cscale" -> CScale
    [] op = "csubst" -> CSubst
    [] op = "cat" -> CEntryAt
    [] op = "compile" -> Compile

Init == heap = Pool /\ prog = <<>> /\ refused = 0
Next == Len(prog) < Steps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties                                                              *)

\* the values returned by the last call (the others were checked before)
New == IF prog = <<>> THEN DOMAIN heap
       ELSE LET s == prog[Len(prog)] IN IF "o" \in DOMAIN s THEN s.o..Len(heap) ELSE {}
NewE == {i \in New : heap[i].t = "e"}
NewS == {i \in NewE : AIs1(heap[i].d)}
NewC == {i \in New : heap[i].t = "c"}

Pts == { <<DInt(2), DInt(-1)>>, <<DInt(0), DInt(3)>>, <<<<1, 1>>, DInt(1)>>, <<DInt(-3), <<5, 1>> >> }

SmallPts == { <<DInt(1), DInt(-1)>>, <<DInt(0), DInt(1)>>, <<DInt(2), DInt(1)>>, <<DInt(-1), DInt(1)>> }

\* a value means what was done to obtain it (C02 C03 C05 C06 C07 C10 C19)
Meaning ==
  \A i \in NewE : LET v == heap[i] IN
    /\ Len(v.d.p) = v.d.r * v.d.c /\ Len(v.tr) = Len(v.d.p)
    /\ \A k \in DOMAIN v.tr : \A pt \in Pts : PEval(v.d.p[k], pt) = TEval(v.tr[k], pt)

\* normal forms are normal (C08 C18)
NormalDyadic(d) == d[2] >= 0 /\ (d[2] = 0 \/ d[1] % 2 # 0)
NormalPoly(p) == \A e \in DOMAIN p : /\ \A v \in Slots : e[v] >= 0
                                     /\ p[e][1] # 0 /\ NormalDyadic(p[e])
Normal == \A i \in NewE : \A k \in DOMAIN heap[i].d.p : NormalPoly(heap[i].d.p[k])

\* different denotations are different functions: a polynomial of degree at
\* most n in each variable that vanishes on n + 1 values of each is zero
BigGrid(n) == [Slots -> {DInt(k) : k \in 0..n}]
Extensional ==
  \A i \in NewS : \A j \in Scals :
    LET p == heap[i].d.p[1] q == heap[j].d.p[1]
        n == Max({PDegree(p), PDegree(q)})
    IN  (n <= 3 /\ p # q) => \E pt \in BigGrid(n) : PEval(p, pt) # PEval(q, pt)

\* a constraint has the solutions it should have (C11 C12)
Solutions ==
  \A i \in NewC : LET c == heap[i] IN
    /\ ASumOk(c.l, c.r) /\ c.s \in Senses
    /\ Len(c.g) = CN(c)
    /\ \A k \in 1..CN(c) : \A pt \in Pts :
         Holds(PEval(CDif(c, k), pt), c.s) = Holds(DSub(TEval(c.g[k][1], pt), TEval(c.g[k][2], pt)), c.gs)

\* the answers to queries agree with the function (C09)
Queries ==
  \A i \in NewS : LET p == heap[i].d.p[1] IN
    /\ PConstTerm(p) = PEval(p, [v \in Slots |-> DZero])
    /\ \A v \in Slots : (v \notin PVars(p)) = (PDeriv(p, v) = PZero)
    /\ \A v \in Slots : PLinCoef(p, v) = PEval(PDeriv(p, v), [w \in Slots |-> DZero])
    /\ (PDegree(p) <= 1) = (\A v, w \in Slots : PDeriv(PDeriv(p, v), w) = PZero)
    /\ PIsConst(p) = (\A v \in Slots : PDeriv(p, v) = PZero)

\* calls change nothing, refused calls return nothing (C01 C04)
Pure == [][ /\ Len(heap') >= Len(heap)
            /\ \A i \in DOMAIN heap : heap'[i] = heap[i]
            /\ refused' > refused => heap' = heap ]_vars
=============================================================================
