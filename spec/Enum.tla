-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Exhaustive small scopes.  For each family of calls this module defines  *)
(* a finite set of programs - literals, then calls on them - that covers   *)
(* every combination of operands from small pools.  TLC writes the slice   *)
(* SLICE of NSLICE of family FAM to the file GEN_OUT; the driver runs the  *)
(* programs on the library and Trace.tla validates what it did.            *)
(*                                                                         *)
(* A program: variable table, steps.  A step: operation, operands a        *)
(* (registers), integers n, variables v, map m, method s, factor f, result *)
(* register o.  Steps that do not apply to the kind of a value are skipped *)
(* by the driver.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

FAM == IOEnv.FAM
NSLICE == atoi(IOEnv.NSLICE)
SLICE == atoi(IOEnv.SLICE)
DEEP == IOEnv.DEEP = "1"

-----------------------------------------------------------------------------
(* Variables                                                               *)

Var(env, id, kind, name) == [env |-> env, id |-> id, kind |-> kind, name |-> name, b |-> 0]
\* identifiers all different, names some of which continue others
T1 == << Var(1, 0, "c", "x_1"), Var(1, 1, "c", "x_2"), Var(1, 2, "c", "x_12"), Var(1, 5, "b", "b_5"),
         Var(1, 12, "i", "y"), Var(1, 21, "c", "x_121"), Var(1, 3, "c", "z") >>
\* the same identifiers in several environments
T2 == << Var(1, 0, "c", "x_0"), Var(2, 0, "c", "u"), Var(1, 1, "c", "x_1"), Var(2, 1, "b", "w"),
         Var(-1, 0, "c", "x_0d"), Var(-1, 1, "i", "t"), Var(1, 2, "c", "z") >>
\* the same names
T3 == << Var(1, 0, "c", "x"), Var(2, 1, "c", "x"), Var(1, 2, "c", "x"), Var(1, 3, "c", "y"),
         Var(2, 4, "c", "y"), Var(-1, 5, "c", "x"), Var(1, 6, "c", "z") >>

x == 1  y == 2  z == 3  b == 4

-----------------------------------------------------------------------------
(* Terms and literals                                                      *)

T(n, k, f) == [c |-> <<n, k>>, f |-> f]
C(n) == T(n, 0, <<>>)
H(n) == T(n, 1, <<>>)
V(v) == T(1, 0, <<<<v, 1>>>>)
CV(n, v) == T(n, 0, <<<<v, 1>>>>)
HV(n, v) == T(n, 1, <<<<v, 1>>>>)
P(n, v, e) == T(n, 0, <<<<v, e>>>>)
XY(n, v, w) == T(n, 0, <<<<v, 1>>, <<w, 1>>>>)

Lit(k, r, c, e) == [k |-> k, r |-> r, c |-> c, e |-> e, bad |-> "", at |-> 0, cap |-> 0]
Sc(k, ts) == Lit(k, 1, 1, <<ts>>)
Bad(l, kind, at) == [l EXCEPT !.bad = kind, !.at = at]
Cap(l) == [l EXCEPT !.cap = 1]

KPool == << <<C(0)>>, <<C(1)>>, <<C(-1)>>, <<C(2)>>, <<C(-3)>>, <<H(3)>> >>
VPool == << <<V(x)>>, <<V(y)>>, <<V(z)>>, <<V(b)>> >>
MPool == << <<V(x)>>, <<CV(-1, x)>>, <<CV(2, x)>>, <<HV(3, y)>>, <<P(1, x, 2)>>, <<P(-2, x, 2)>>,
            <<XY(1, x, y)>>, <<XY(3, y, x)>>, <<T(1, 0, <<<<x, 2>>, <<y, 1>>>>)>>,
            <<T(-1, 0, <<<<x, 1>>, <<y, 2>>>>)>>, <<T(2, 0, <<<<z, 1>>, <<x, 1>>, <<y, 1>>>>)>>,
            <<P(1, y, 3)>>, <<C(5)>>, <<C(0)>>, <<CV(0, x)>>, <<P(1, x, 4)>> >>
PPool == << <<V(x), V(y)>>, <<V(x), CV(-1, y)>>, <<V(y), V(x)>>, <<V(x), C(1)>>, <<C(1), CV(-1, x)>>,
            <<V(x), V(x)>>, <<V(x), CV(-1, x)>>, <<P(1, x, 2), XY(2, x, y), P(1, y, 2)>>, <<C(2)>>, <<C(0)>>,
            <<V(x)>>, <<CV(-1, y)>>, <<V(x), V(y), V(z), C(1)>>, <<P(1, x, 2), C(-1)>>,
            <<XY(1, x, y), XY(1, y, x)>>, <<CV(2, x), CV(3, y), CV(-1, z), XY(1, x, y), C(4)>>,
            <<P(1, x, 3), CV(-1, x), C(0)>>, <<HV(1, x), H(-1)>>,
            <<C(7), P(1, z, 2), P(-1, z, 3), CV(2, z), XY(1, x, z), CV(-5, b)>> >>
All(k, pool) == [i \in DOMAIN pool |-> Sc(k, pool[i])]
SPool == All("K", KPool) \o All("Var", VPool) \o All("Mon", MPool) \o All("Pol", PPool)
NPool == << Sc("f64", <<C(0)>>), Sc("f64", <<H(-3)>>), Sc("f64", <<C(2)>>), Sc("int", <<C(0)>>), Sc("int", <<C(3)>>), Sc("int", <<C(-1)>>) >>

PoolOf(k) ==
  CASE k \in {"K", "KV", "KM", "f64", "VD", "pVD", "D", "pD"} -> << <<C(1)>>, <<C(-2)>>, <<C(3)>>, <<C(0)>>, <<H(5)>>, <<C(-1)>>, <<C(4)>>, <<C(7)>> >>
    [] k = "int" -> << <<C(1)>>, <<C(-2)>>, <<C(3)>>, <<C(0)>>, <<C(5)>>, <<C(-1)>> >>
    [] k \in {"Var", "VV", "VM"} -> << <<V(x)>>, <<V(y)>>, <<V(z)>>, <<V(b)>>, <<V(5)>> >>
    [] k \in {"Mon", "MV", "MM"} -> << <<CV(2, x)>>, <<CV(-1, y)>>, <<P(1, x, 2)>>, <<XY(3, y, x)>>, <<C(5)>>, <<V(z)>>, <<C(0)>>, <<HV(-3, x)>> >>
    [] OTHER -> << <<V(x), V(y)>>, <<C(1), CV(-1, x)>>, <<P(1, x, 2), CV(2, y), C(-3)>>, <<CV(2, z), CV(-1, y)>>, <<C(2)>>, <<XY(1, x, y), V(x)>>, <<V(y)>>, <<C(0)>> >>
\* linear contents
LPoolOf(k) ==
  CASE k \in {"Mon", "MV", "MM"} -> << <<CV(2, x)>>, <<CV(-1, y)>>, <<C(5)>>, <<V(z)>>, <<C(0)>>, <<HV(-3, x)>> >>
    [] k \in {"Pol", "PV", "PM"} -> << <<V(x), V(y)>>, <<C(1), CV(-1, x)>>, <<CV(2, y), C(-3)>>, <<CV(2, z), CV(-1, y)>>, <<C(2)>>, <<V(y), V(x), CV(-2, z), C(3)>> >>
    [] OTHER -> PoolOf(k)

\* variant 0: entries in turn; 1: starting elsewhere; 2: all the same; 3: every other
Content(pool, n, var) ==
  [i \in 1..n |-> pool[((CASE var = 0 -> i - 1
                           [] var = 1 -> i + 2
                           [] var = 2 -> 0
                           [] OTHER -> 2 * i + 3) % Len(pool)) + 1]]
LitOf(k, r, c, var) == Lit(k, r, c, Content(PoolOf(k), r * c, var))
LLitOf(k, r, c, var) == Lit(k, r, c, Content(LPoolOf(k), r * c, var))

ScKinds == <<"K", "Var", "Mon", "Pol">>
VeKinds == <<"KV", "VV", "MV", "PV">>
MaKinds == <<"KM", "VM", "MM", "PM">>
VeShapes == <<1, 2, 3>>
MaShapes == << <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>> >> \o (IF DEEP THEN << <<1, 3>>, <<3, 1>>, <<4, 2>>, <<2, 4>> >> ELSE <<>>)

Flat(ss) == FlattenSeq(ss)
\* every shape of kinds
ShapesV(ks, var) == Flat([i \in DOMAIN ks |-> [j \in DOMAIN VeShapes |-> LitOf(ks[i], VeShapes[j], 1, var)]])
ShapesM(ks, var) == Flat([i \in DOMAIN ks |-> [j \in DOMAIN MaShapes |-> LitOf(ks[i], MaShapes[j][1], MaShapes[j][2], var)]])
ArrLits(var) ==
  [i \in DOMAIN ScKinds |-> LitOf(ScKinds[i], 1, 1, var)] \o ShapesV(VeKinds, var) \o ShapesM(MaKinds, var)
NumLits(var) ==
  <<LitOf("f64", 1, 1, var), LitOf("int", 1, 1, var)>> \o ShapesV(<<"VD", "pVD">>, var) \o ShapesM(<<"D", "pD">>, var)

\* one literal of each kind, conformable with dimension n
OneOf(n, var) ==
  [i \in DOMAIN ScKinds |-> LitOf(ScKinds[i], 1, 1, var)]
  \o [i \in DOMAIN VeKinds |-> LitOf(VeKinds[i], n, 1, var)]
  \o [i \in DOMAIN MaKinds |-> LitOf(MaKinds[i], n, n, var)]

-----------------------------------------------------------------------------
(* Steps and programs                                                      *)

Mk(l) == [op |-> "mk", mk |-> l]
Op(op, a) == [op |-> op, a |-> a]
OpN(op, a, n) == [op |-> op, a |-> a, n |-> n]
OpV(op, a, v) == [op |-> op, a |-> a, v |-> v]
OpS(op, s, a) == [op |-> op, s |-> s, a |-> a]
OpNV(op, a, n, v) == [op |-> op, a |-> a, n |-> n, v |-> v]
OpSN(op, s, a, n) == [op |-> op, s |-> s, a |-> a, n |-> n]
OpM(op, a, m) == [op |-> op, a |-> a, m |-> m]
To(st, o) == st @@ [o |-> o]
Again(st, r) == st @@ [same |-> r]

Mks(lits) == [i \in DOMAIN lits |-> To(Mk(lits[i]), i)]
Prog(vars, steps) == [p |-> 0, fam |-> FAM, nenv |-> 2, vars |-> vars, steps |-> steps]

\* all splits of a sequence into pieces of at most n
Pieces(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (i - 1) * n + 1, IF i * n < Len(s) THEN i * n ELSE Len(s))]
\* pairs of indices, row by row
Pairs(n, m) == [k \in 1..(n * m) |-> <<((k - 1) \div m) + 1, ((k - 1) % m) + 1>>]
Bools(n) == {<<>>} \cup UNION {[1..k -> {0, 1}] : k \in 1..n}
Tuples(S, n) == SetToSeq([1..n -> S])

\* binary operations of every left with every right
Binary(lefts, rights, ops, n, vars) ==
  LET ps == Pieces(rights, n)
      ix == Pairs(Len(lefts), Len(ps))
  IN  [k \in DOMAIN ix |->
        LET rs == ps[ix[k][2]]
        IN  Prog(vars, Mks(<<lefts[ix[k][1]]>> \o rs)
              \o Flat([j \in DOMAIN rs |-> [o \in DOMAIN ops |-> Op(ops[o], <<1, j + 1>>)]]))]

\* one program per literal
Unary(lits, steps(_), vars) == [i \in DOMAIN lits |-> Prog(vars, Mks(<<lits[i]>>) \o steps(lits[i]))]

-----------------------------------------------------------------------------
(* Families                                                                *)

Arith == <<"plus", "minus", "mul", "minusfn">>

Scal(vars) ==
  Binary(SPool, SPool \o NPool, Arith, 17, vars)
  \o Unary(SPool, LAMBDA l : [n \in 1..7 |-> OpN("pow", <<1>>, <<n - 2>>)], vars)
  \* sums and products of sums and products
  \o LET q == SubSeq(SPool, 7, Len(SPool))
         ix == Pairs(Len(q), Len(q))
     IN  [k \in 1..(Len(ix) \div (IF DEEP THEN 1 ELSE 4)) |->
            LET i == ix[IF DEEP THEN k ELSE 4 * k]
            IN  Prog(vars, Mks(<<q[i[1]], q[i[2]], q[((i[1] * 7 + i[2] * 3) % Len(q)) + 1]>>) \o
                  << To(Op("plus", <<1, 2>>), 4), To(Op("minus", <<1, 2>>), 5), To(Op("mul", <<1, 2>>), 6),
                     Op("mul", <<4, 3>>), Op("mul", <<5, 4>>), Op("plus", <<6, 5>>), Op("minus", <<6, 4>>),
                     Op("minus", <<4, 4>>), Op("minus", <<6, 6>>), Op("mul", <<3, 5>>), Op("plus", <<3, 6>>) >>)]

ArrFam(vars, var) ==
  Binary(ArrLits(var), ArrLits(IF var = 0 THEN 1 ELSE var) \o NumLits(var), Arith, 16, vars)
  \o Unary(ShapesM(MaKinds, var), LAMBDA l : [n \in 1..5 |-> OpN("pow", <<1>>, <<n - 2>>)], vars)
  \o Unary(ArrLits(var), LAMBDA l : [n \in 1..4 |-> OpN("pow", <<1>>, <<n - 2>>)], vars)

\* shapes: indices, stacks, calculus on every shape
ShapeFam(vars) ==
  Unary(ArrLits(0),
        LAMBDA l : <<Op("dims", <<1>>), Op("len", <<1>>), Op("tr", <<1>>), Op("issquare", <<1>>)>>
          \o Flat([i \in 1..6 |-> [j \in 1..6 |-> OpN("at", <<1>>, <<i - 2, j - 2>>)]])
          \o [i \in 1..6 |-> OpN("atvec", <<1>>, <<i - 2>>)], vars)
  \o Binary(ArrLits(0), ArrLits(1), <<"hstack", "vstack">>, 20, vars)

DerivFam(vars) ==
  LET ds(l) == [v \in 1..5 |-> To(OpV("deriv", <<1>>, <<v>>), v + 1)]
               \o Flat([v \in 1..3 |-> [w \in 1..3 |-> OpV("deriv", <<v + 1>>, <<w>>)]])
  IN  Unary(SPool, ds, vars) \o Unary(ArrLits(0), ds, vars) \o Unary(ArrLits(3), ds, vars)

\* replacing each of x, y, z by everything in the pool
SubstFam(vars) ==
  LET reps == SPool
      lefts == SPool \o OneOf(2, 0) \o OneOf(2, 3)
      ps == Pieces(reps, 15)
      ix == Pairs(Len(lefts), Len(ps))
  IN  [k \in DOMAIN ix |->
        LET rs == ps[ix[k][2]]
        IN  Prog(vars, Mks(<<lefts[ix[k][1]]>> \o rs)
             \o Flat([j \in DOMAIN rs |-> [v \in 1..3 |-> OpV("subst", <<1, j + 1>>, <<v>>)]]))]

\* simultaneous replacement of x, y, z
RepPool == << Sc("K", <<C(2)>>), Sc("K", <<C(0)>>), Sc("Var", <<V(x)>>), Sc("Var", <<V(y)>>), Sc("Var", <<V(z)>>),
              Sc("Mon", <<CV(-1, x)>>), Sc("Pol", <<V(x), V(y)>>), Sc("Pol", <<V(y), C(-1)>>), Sc("Mon", <<P(1, x, 2)>>) >>
SubExprs == << Sc("Var", <<V(x)>>), Sc("Mon", <<CV(2, y)>>), Sc("Mon", <<XY(1, x, y)>>), Sc("Mon", <<T(3, 0, <<<<y, 1>>, <<x, 2>>>>)>>),
               Sc("Mon", <<T(1, 0, <<<<x, 1>>, <<y, 1>>, <<z, 1>>>>)>>), Sc("Pol", <<V(x), V(y)>>), Sc("Pol", <<V(x), CV(-1, y), C(1)>>),
               Sc("Pol", <<P(1, x, 2), XY(1, x, y), V(z)>>), Sc("Pol", <<XY(2, x, y), XY(-1, y, z), V(z), C(4)>>),
               LitOf("VV", 3, 1, 0), LitOf("MV", 3, 1, 0), LitOf("PV", 2, 1, 0), LitOf("VM", 2, 2, 0), LitOf("MM", 2, 2, 0),
               LitOf("PM", 2, 2, 0), LitOf("KV", 2, 1, 0), LitOf("KM", 2, 2, 0), Sc("K", <<C(3)>>) >>
SubMapFam(vars) ==
  LET n == Len(RepPool)
      \* 0: not replaced
      maps == SetToSeq([1..3 -> 0..n])
      lits == SubExprs \o RepPool
      e == Len(SubExprs)
      MapOf(f) == SelectSeq([v \in 1..3 |-> <<v, IF f[v] = 0 THEN 0 ELSE e + f[v]>>], LAMBDA q : q[2] > 0)
      Step2(i, f) == [op |-> "substmap", a |-> <<i>>, m |-> MapOf(f)]
      use == IF DEEP THEN maps ELSE SelectSeq(maps, LAMBDA f : ((f[1] * 5 + f[2] * 3 + f[3]) % 4 = 0) \/ (f[3] = 0))
      ps == Pieces(use, 2)
  IN  [k \in DOMAIN ps |->
        Prog(vars, Mks(lits) \o Flat([j \in DOMAIN ps[k] |-> [i \in 1..e |-> Step2(i, ps[k][j])]]))]

\* all lists of at most three terms
STerms == << C(0), C(1), C(-1), V(x), CV(-1, x), CV(0, x), V(y), XY(1, x, y), XY(-1, y, x), P(1, x, 2) >>
           \o (IF DEEP THEN << CV(2, y), T(1, 0, <<<<x, 1>>, <<y, 2>>>>), HV(1, x), C(2) >> ELSE <<>>)
TermLists ==
  LET n == Len(STerms)
  IN  [i \in 1..n |-> <<STerms[i]>>]
      \o [k \in 1..(n * n) |-> <<STerms[((k - 1) \div n) + 1], STerms[((k - 1) % n) + 1]>>]
      \o [k \in 1..(n * n * n) |-> <<STerms[((k - 1) \div (n * n)) + 1], STerms[(((k - 1) \div n) % n) + 1], STerms[((k - 1) % n) + 1]>>]
SimpSteps(n) == Flat([i \in 1..n |-> <<Op("simp", <<i>>), Op("simplify", <<i>>)>>])
SimpFam(vars) ==
  LET ps == Pieces([i \in DOMAIN TermLists |-> Sc("Pol", TermLists[i])], 20)
      \* four to six terms, in arrays
      n == Len(TermLists)
      long(i) == TermLists[i] \o TermLists[((i * 13) % n) + 1]
      vs == [i \in 1..(n \div 6) |-> <<Lit("PV", 3, 1, <<TermLists[((i * 31) % n) + 1], long(i), long(n - i)>>),
                                        Lit("PM", 2, 2, <<long(((i * 7) % n) + 1), TermLists[i], long(i), TermLists[((i * 17) % n) + 1]>>)>>]
      all == [i \in DOMAIN vs |-> Prog(vars, Mks(vs[i]) \o SimpSteps(2))]
  IN  [k \in DOMAIN ps |-> Prog(vars, Mks(ps[k]) \o SimpSteps(Len(ps[k])))]
      \o all
      \o LET ms == Pieces(All("Mon", MPool) \o All("K", KPool) \o All("Var", VPool) \o ArrLits(0) \o ArrLits(3), 20)
         IN  [k \in DOMAIN ms |-> Prog(vars, Mks(ms[k]) \o Flat([i \in DOMAIN ms[k] |-> <<Op("simp", <<i>>), Op("conce", <<i>>)>>]))]

\* questions about every value
WOrders == << <<x>>, <<y>>, <<x, y>>, <<y, x>>, <<x, y, z>>, <<z, y, x>>, <<y, z, x>>, <<b, x, z, y>>, <<5, 4, 3, 2, 1>> >>
QSteps(l) ==
  <<Op("check", <<1>>), Op("dims", <<1>>), Op("len", <<1>>), Op("degree", <<1>>), Op("vars", <<1>>), Op("numvars", <<1>>), Op("varids", <<1>>),
    Op("const", <<1>>), Op("islin", <<1>>), Op("isquad", <<1>>), Op("isconst", <<1>>), Op("iszero", <<1>>),
    Op("constmonidx", <<1>>), Op("issquare", <<1>>), Op("preds", <<1>>), OpN("lincoef", <<1>>, <<0>>)>>
  \o [i \in DOMAIN WOrders |-> OpNV("lincoef", <<1>>, <<1>>, WOrders[i])]
  \o Flat([v \in 1..5 |-> <<OpV("isvar", <<1>>, <<v>>), OpV("isdeg1", <<1>>, <<v>>), OpV("varmonidx", <<1>>, <<v>>)>>])
QueryFam(vars) ==
  Unary(SPool, QSteps, vars) \o Unary(ArrLits(0), QSteps, vars) \o Unary(ArrLits(1), QSteps, vars) \o Unary(ArrLits(3), QSteps, vars)
  \o Unary([i \in 1..(Len(TermLists) \div 3) |-> Sc("Pol", TermLists[3 * i])], QSteps, vars)
  \o Binary(All("Mon", MPool), All("Mon", MPool), <<"matches">>, 20, vars)
  \o Binary(All("Pol", PPool), All("Mon", MPool), <<"monidx">>, 20, vars)
  \o LET vl == SetToSeq(UNION {[1..k -> 1..4] : k \in 1..4})
         ps == Pieces(vl, 12)
     IN  [k \in DOMAIN ps |-> Prog(vars, [j \in DOMAIN ps[k] |-> OpV("uniq", <<>>, ps[k][j])]
            \o [j \in DOMAIN ps[k] |-> [op |-> "find", s |-> "var", a |-> <<>>, v |-> ps[k][j]]]
            \o [j \in DOMAIN ps[k] |-> OpSN("find", <<"int", "string", "uint64">>[(j % 3) + 1], <<>>, ps[k][j])]
            \o [j \in DOMAIN ps[k] |-> OpN("unique", <<>>, ps[k][j])]
            \o [j \in DOMAIN ps[k] |-> OpNV("union", <<>>, <<Len(ps[k][j]) \div 2, Len(ps[k][j]) - (Len(ps[k][j]) \div 2)>>, ps[k][j])])]

\* stacks of two to five pieces; arrays built from entries
PlaceFam(vars) ==
  ShapeFam(vars)
  \o LET ms == ShapesM(MaKinds, 0) \o ShapesV(VeKinds, 1)
         n == Len(ms)
         \* triples with equal rows or equal columns
         Fits(i, j, k) == (ms[i].r = ms[j].r /\ ms[j].r = ms[k].r) \/ (ms[i].c = ms[j].c /\ ms[j].c = ms[k].c)
         js(i) == SelectSeq(Pairs(n, n), LAMBDA q : Fits(i, q[1], q[2]) /\ (DEEP \/ ((q[1] * 3 + q[2] + i) % 7 = 0)))
     IN  [i \in 1..n |-> Prog(vars, Mks(ms) \o Flat([q \in DOMAIN js(i) |->
              <<Op("hstack", <<i, js(i)[q][1], js(i)[q][2]>>), Op("vstack", <<i, js(i)[q][1], js(i)[q][2]>>)>>]))]
         \o [i \in 1..n |-> Prog(vars, Mks(ms) \o
              << To(Op("tr", <<i>>), n + 1), Op("tr", <<n + 1>>), Op("hstack", <<i, i, i, i, i>>), Op("vstack", <<i, i, i, i, i>>),
                 To(Op("hstack", <<i, i>>), n + 2), To(Op("vstack", <<i, i>>), n + 3), Op("vstack", <<n + 2, n + 2>>), Op("hstack", <<n + 3, n + 3>>),
                 Op("tr", <<n + 2>>), Op("tr", <<n + 3>>), Op("toscalars", <<i>>), Op("hstack", <<i>>), Op("vstack", <<i>>) >>)]
  \o LET ss == Pieces(SPool, 9)
         lens == << <<9>>, <<1, 1, 1>>, <<2, 2, 2>>, <<3, 3, 3>>, <<1, 2>>, <<2, 1, 2>>, <<2, 2, 1>>, <<3, 2>>, <<4, 4>>, <<0, 2>>, <<2, 0>> >>
     IN  [i \in DOMAIN ss |-> LET m == Len(ss[i]) IN Prog(vars, Mks(ss[i])
            \o Flat([k \in 1..m |-> << Op("concev", [j \in 1..k |-> j]), Op("concv", [j \in 1..k |-> m + 1 - j]), Op("conce", <<k>>) >>])
            \o Flat([k \in DOMAIN lens |->
                  LET t == FoldLeft(LAMBDA p, q : p + q, 0, lens[k])
                  IN  << OpN("concem", [j \in 1..t |-> ((j * 2) % m) + 1], lens[k]), OpN("concm", [j \in 1..t |-> ((j * 5) % m) + 1], lens[k]) >>]))]
  \* entries of mixed kinds, every order
     \o LET mix == <<LitOf("K", 1, 1, 0), LitOf("Var", 1, 1, 1), LitOf("Mon", 1, 1, 0), LitOf("Pol", 1, 1, 0)>>
            ts == Pieces(SetToSeq([1..3 -> 1..4]) \o SetToSeq([1..4 -> 1..4]), 16)
        IN  [i \in DOMAIN ts |-> Prog(vars, Mks(mix) \o Flat([j \in DOMAIN ts[i] |->
               << Op("concev", ts[i][j]), Op("concv", ts[i][j]) >> \o
               (IF Len(ts[i][j]) = 4 THEN << OpN("concem", ts[i][j], <<2, 2>>), OpN("concm", ts[i][j], <<4>>), OpN("concm", ts[i][j], <<1, 1, 1, 1>>) >> ELSE <<>>)]))]

Sen == <<"le", "ge", "eq">>
\* a comparison and its parts; d: the call made by method (1) or by Comparison
Parts(i, j, s, d, o) ==
  << To(OpSN("cmp", s, <<i, j>>, d), o), Op("left", <<o>>), Op("right", <<o>>), Op("csense", <<o>>), Op("cdims", <<o>>), Op("clen", <<o>>),
     OpN("catvec", <<o>>, <<0>>), OpN("catvec", <<o>>, <<1>>), OpN("catvec", <<o>>, <<2>>), OpN("catvec", <<o>>, <<-1>>),
     OpN("cat", <<o>>, <<0, 0>>), OpN("cat", <<o>>, <<1, 0>>), OpN("cat", <<o>>, <<0, 1>>), OpN("cat", <<o>>, <<1, 1>>),
     OpN("cat", <<o>>, <<1, 2>>), OpN("cat", <<o>>, <<2, 1>>), OpN("cat", <<o>>, <<-1, 0>>), Op("compile", <<o>>), Op("check", <<o>>) >>
CompareFam(vars) ==
  LET lefts == ArrLits(0)
      rights == ArrLits(1) \o NumLits(0)
      ps == Pieces(rights, 24)
      ix == Pairs(Len(lefts), Len(ps))
      Conf(l, r) == (l.r = r.r /\ l.c = r.c) \/ (l.r * l.c = 1) \/ (r.r * r.c = 1)
      Sts(l, rs) ==
        Flat([j \in DOMAIN rs |->
           IF Conf(l, rs[j])
           THEN Parts(1, j + 1, Sen[(j % 3) + 1], <<1>>, 100 + 3 * j)
                \o << OpSN("cmp", Sen[((j + 1) % 3) + 1], <<1, j + 1>>, <<1>>), OpSN("cmp", Sen[((j + 2) % 3) + 1], <<1, j + 1>>, <<0>>) >>
           ELSE << OpSN("cmp", Sen[(j % 3) + 1], <<1, j + 1>>, <<1>>), OpSN("cmp", Sen[((j + 1) % 3) + 1], <<1, j + 1>>, <<0>>) >>])
  IN  [k \in DOMAIN ix |-> Prog(vars, Mks(<<lefts[ix[k][1]]>> \o ps[ix[k][2]]) \o Sts(lefts[ix[k][1]], ps[ix[k][2]]))]
      \o LET q == Pieces(SPool, 15)
             iy == Pairs(Len(SPool), Len(q))
         IN  [k \in DOMAIN iy |-> LET rs == q[iy[k][2]] IN
               Prog(vars, Mks(<<SPool[iy[k][1]]>> \o rs) \o Flat([j \in DOMAIN rs |-> [s \in 1..3 |-> OpSN("cmp", Sen[s], <<1, j + 1>>, <<1>>)]]))]
      \* lists of constraints
      \o LET ls == <<LitOf("Var", 1, 1, 0), LitOf("K", 1, 1, 0), LitOf("VV", 3, 1, 0), LitOf("KV", 3, 1, 0), LitOf("VM", 2, 3, 0), LitOf("KM", 2, 3, 0), LitOf("PV", 2, 1, 0), LitOf("PM", 2, 2, 0), LitOf("MM", 2, 2, 0)>>
             cs == << To(OpSN("cmp", "le", <<1, 2>>, <<1>>), 11), To(OpSN("cmp", "ge", <<3, 4>>, <<1>>), 12), To(OpSN("cmp", "eq", <<5, 6>>, <<1>>), 13),
                      To(OpSN("cmp", "eq", <<7, 2>>, <<1>>), 14), To(OpSN("cmp", "le", <<8, 2>>, <<1>>), 15), To(OpSN("cmp", "ge", <<9, 9>>, <<1>>), 16) >>
             os == SetToSeq([1..3 -> 11..16])
             oq == Pieces(os, 24)
         IN  [i \in DOMAIN oq |-> Prog(vars, Mks(ls) \o cs \o [j \in DOMAIN oq[i] |-> Op("compile", oq[i][j])])]

\* rewriting of scalar and array constraints
Facs == << <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-3, 0>>, <<1, 1>>, <<-5, 1>> >>
RewSteps(o) ==
  << Op("csimplify", <<o>>), Op("cassimp", <<o>>) >>
  \o [i \in DOMAIN Facs |-> [op |-> "cscale", a |-> <<o>>, f |-> Facs[i]]]
RewriteFam(vars) ==
  LET q == Pieces(SPool, 6)
      reps == <<Sc("K", <<C(2)>>), Sc("Var", <<V(y)>>), Sc("Pol", <<V(x), CV(-1, y)>>)>>
      iy == Pairs(Len(SPool), Len(q))
      M1 == << <<x, 2>>, <<y, 4>> >>
      M2 == << <<x, 3>>, <<z, 4>> >>
      Sub(o) == << OpV("csubst", <<o, 2>>, <<x>>), OpV("csubst", <<o, 3>>, <<x>>), OpV("csubst", <<o, 4>>, <<y>>),
                   OpM("csubstmap", <<o>>, M1), OpM("csubstmap", <<o>>, M2) >>
  IN  [k \in DOMAIN iy |-> LET rs == q[iy[k][2]] IN
         Prog(vars, Mks(<<SPool[iy[k][1]]>> \o reps \o rs)
           \o Flat([j \in DOMAIN rs |-> LET o == 50 + j IN
                 << To(OpSN("cmp", Sen[((j + k) % 3) + 1], <<1, 4 + j>>, <<1>>), o) >> \o RewSteps(o) \o Sub(o)]))]
      \o LET ls == ShapesV(VeKinds, 0) \o ShapesM(MaKinds, 0)
             rs == ArrLits(1)
             Conf(l, r) == (l.r = r.r /\ l.c = r.c) \/ (r.r * r.c = 1)
             use(l) == SelectSeq(rs, LAMBDA r : Conf(l, r))
         IN  [i \in DOMAIN ls |-> LET us == use(ls[i]) IN
               Prog(vars, Mks(<<ls[i]>> \o reps \o us)
                 \o Flat([j \in DOMAIN us |-> LET o == 50 + j IN
                      << To(OpSN("cmp", Sen[((i + j) % 3) + 1], <<1, 4 + j>>, <<1>>), o), Op("cassimp", <<o>>) >> \o Sub(o)]))]

\* linear representations
LTerms == << <<V(x)>>, <<CV(-1, x)>>, <<CV(2, y)>>, <<V(x), V(y)>>, <<V(y), CV(-2, x), C(3)>>, <<C(4)>>, <<C(0)>>, <<HV(1, x), C(-1)>>,
             <<V(x), V(y), CV(-1, z)>>, <<C(5), V(z)>>, <<CV(3, x), C(1), CV(-1, y)>> >>
LScal == [i \in DOMAIN LTerms |-> Sc("Pol", LTerms[i])] \o << Sc("K", <<C(2)>>), Sc("K", <<C(0)>>), Sc("Var", <<V(x)>>), Sc("Var", <<V(z)>>), Sc("Mon", <<CV(-2, y)>>), Sc("Mon", <<V(x)>>), Sc("Mon", <<C(3)>>),
             Sc("Pol", <<P(1, x, 2), V(y)>>), Sc("Mon", <<XY(1, x, y)>>) >>
LinOrders == << <<x, y, z>>, <<z, y, x>>, <<y, z, x, b>>, <<x, y>>, <<y, x>> >>
RepSteps(o) ==
  Flat([r \in 1..2 |-> LET op == IF r = 1 THEN "ineqrep" ELSE "eqrep" IN
     << OpN(op, <<o>>, <<0>>) >> \o [i \in DOMAIN LinOrders |-> OpNV(op, <<o>>, <<1>>, LinOrders[i])]])
LinRepFam(vars) ==
  LET q == Pieces(LScal, 5)
      iy == Pairs(Len(LScal), Len(q))
  IN  [k \in DOMAIN iy |-> LET rs == q[iy[k][2]] IN
         Prog(vars, Mks(<<LScal[iy[k][1]]>> \o rs)
           \o Flat([j \in DOMAIN rs |-> LET o == 50 + 3 * j IN
                << To(OpSN("cmp", Sen[((j + k) % 3) + 1], <<1, 1 + j>>, <<1>>), o) >> \o RepSteps(o)
                \o << To(OpSN("cmp", Sen[((j + k + 1) % 3) + 1], <<1, 1 + j>>, <<1>>), o + 1), OpN("ineqrep", <<o + 1>>, <<0>>), OpN("eqrep", <<o + 1>>, <<0>>), OpNV("ineqrep", <<o + 1>>, <<1>>, <<z, x, y>>) >>]))]
      \o LET ks == VeKinds
             ls == Flat([v \in 1..3 |-> Flat([i \in DOMAIN ks |-> [n \in 1..3 |-> LLitOf(ks[i], n + 1, 1, v - 1)]])])
             rs == ls \o <<LLitOf("K", 1, 1, 0), LLitOf("VD", 2, 1, 0), LLitOf("VD", 3, 1, 1)>>
             use(l) == SelectSeq(rs, LAMBDA r : l.r = r.r \/ r.r = 1)
             ps == Flat([i \in DOMAIN ls |-> [p \in DOMAIN Pieces(use(ls[i]), 5) |-> <<ls[i]>> \o Pieces(use(ls[i]), 5)[p]]])
         IN  [k \in DOMAIN ps |-> Prog(vars, Mks(ps[k]) \o Flat([j \in 1..(Len(ps[k]) - 1) |->
                << To(OpSN("cmp", Sen[((j + k) % 3) + 1], <<1, j + 1>>, <<1>>), 50 + j) >> \o RepSteps(50 + j)]))]

\* bounds a*x + c  s  d, on either side
BCoef == << <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-1, 1>> >>
BRhs == <<0, 1, -2, 4>>
BSide(c, v, k) == \* c*v + k as the simplest of the kinds that denotes it
  IF k = 0 THEN IF c = <<1, 0>> THEN Sc("Var", <<V(v)>>) ELSE Sc("Mon", <<T(c[1], c[2], <<<<v, 1>>>>)>>)
  ELSE Sc("Pol", <<C(k), T(c[1], c[2], <<<<v, 1>>>>)>>)
\* a bound: <<left, right, sense>>; flip: the variable on the right
Bounds(v) ==
  Flat([i \in DOMAIN BCoef |-> Flat([j \in DOMAIN BRhs |-> [s \in 1..3 |->
    LET e == BSide(BCoef[i], v, IF (i + j) % 4 = 0 THEN 2 ELSE 0) k == Sc("K", <<C(BRhs[j])>>)
    IN  IF (i + j + s) % 3 = 0 THEN <<k, e, Sen[s]>> ELSE <<e, k, Sen[s]>>]])])
ImpliesFam(vars) ==
  LET bs == Bounds(x) \o SubSeq(Bounds(y), 1, 6)
         \o << <<Sc("Pol", <<V(x), V(y)>>), Sc("K", <<C(1)>>), "le">>, <<Sc("Pol", <<V(x), V(y)>>), Sc("K", <<C(3)>>), "le">>,
               <<Sc("Pol", <<V(x), CV(-1, x)>>), Sc("K", <<C(1)>>), "le">>, <<Sc("K", <<C(0)>>), Sc("K", <<C(1)>>), "ge">>,
               <<Sc("K", <<C(0)>>), Sc("K", <<C(1)>>), "le">>, <<Sc("Mon", <<P(1, x, 2)>>), Sc("K", <<C(4)>>), "le">>,
               <<Sc("Mon", <<P(1, x, 2)>>), Sc("K", <<C(4)>>), "eq">>, <<Sc("Var", <<V(x)>>), Sc("Var", <<V(y)>>), "le">>,
               <<Sc("Var", <<V(b)>>), Sc("K", <<C(1)>>), "le">>, <<Sc("Pol", <<V(x), C(1)>>), Sc("Pol", <<CV(2, x), C(-3)>>), "ge">> >>
      n == Len(bs)
      \* registers: left 2i-1, right 2i, constraint 2n+i
      ps == Pieces([i \in 1..n |-> i], 6)
      Prg(k, i) ==
        LET as == ps[k]
            sub == as \o <<i>>
            m == Len(sub)
        IN  Prog(vars, Flat([j \in 1..m |-> << To(Mk(bs[sub[j]][1]), 2 * j - 1), To(Mk(bs[sub[j]][2]), 2 * j) >>])
              \o [j \in 1..m |-> To(OpSN("cmp", bs[sub[j]][3], <<2 * j - 1, 2 * j>>, <<1>>), 20 + j)]
              \o Flat([j \in 1..m |-> << Op("implies", <<20 + j, 20 + m>>), Op("implies", <<20 + m, 20 + j>>) >>]))
  IN  Flat([k \in DOMAIN ps |-> [i \in 1..n |-> Prg(k, i)]])
      \* vectors of bounds
      \o LET ks == << <<C(1)>>, <<C(-1)>>, <<C(2)>> >>
             rhs == SetToSeq([1..2 -> 1..3])
             vl == << Lit("VV", 2, 1, <<<<V(x)>>, <<V(y)>>>>), Lit("VV", 2, 1, <<<<V(x)>>, <<V(x)>>>>), Lit("MV", 2, 1, <<<<CV(-1, x)>>, <<CV(2, y)>>>>) >>
             cons == Flat([i \in DOMAIN vl |-> Flat([j \in DOMAIN rhs |-> [s \in 1..3 |-> <<vl[i], Lit("KV", 2, 1, <<ks[rhs[j][1]], ks[rhs[j][2]]>>), Sen[s]>>]])])
             sb == << <<Sc("Var", <<V(x)>>), Sc("K", <<C(1)>>), "le">>, <<Sc("Var", <<V(x)>>), Sc("K", <<C(0)>>), "ge">>, <<Sc("Var", <<V(y)>>), Sc("K", <<C(2)>>), "le">>, <<Sc("Mon", <<CV(-1, y)>>), Sc("K", <<C(1)>>), "ge">> >>
             nc == Len(cons)
             two(i, j) == Prog(vars, Flat([q \in 1..6 |-> LET c == IF q = 1 THEN cons[i] ELSE IF q = 2 THEN cons[j] ELSE sb[q - 2] IN
                      << To(Mk(c[1]), 2 * q - 1), To(Mk(c[2]), 2 * q), To(OpSN("cmp", c[3], <<2 * q - 1, 2 * q>>, <<1>>), 20 + q) >>])
                  \o << Op("implies", <<21, 22>>), Op("implies", <<22, 21>>) >>
                  \o Flat([q \in 1..4 |-> << Op("implies", <<21, 22 + q>>), Op("implies", <<22 + q, 21>>) >>]))
             pr == SelectSeq(Pairs(nc, nc), LAMBDA p : (p[1] * 7 + p[2] * 5) % (IF DEEP THEN 4 ELSE 16) = 0)
         IN  [k \in DOMAIN pr |-> two(pr[k][1], pr[k][2])]

\* sides of possible sign constraints
NSides == << Sc("Var", <<V(x)>>), Sc("Var", <<V(b)>>), Sc("Mon", <<CV(2, x)>>), Sc("Mon", <<CV(-1, x)>>), Sc("Mon", <<P(1, x, 2)>>), Sc("Mon", <<P(-1, x, 3)>>),
             Sc("Mon", <<XY(1, x, y)>>), Sc("Mon", <<C(0)>>), Sc("Mon", <<C(3)>>), Sc("Mon", <<CV(0, x)>>), Sc("K", <<C(0)>>), Sc("K", <<C(1)>>), Sc("K", <<C(-1)>>),
             Sc("Pol", <<V(x)>>), Sc("Pol", <<CV(-2, x)>>), Sc("Pol", <<V(x), C(1)>>), Sc("Pol", <<V(x), C(0)>>), Sc("Pol", <<C(-1), CV(2, x)>>), Sc("Pol", <<V(x), V(y)>>),
             Sc("Pol", <<V(x), CV(-1, x)>>), Sc("Pol", <<V(x), V(x)>>), Sc("Pol", <<C(0)>>), Sc("Pol", <<P(1, x, 2)>>), Sc("Pol", <<V(x), P(1, x, 2)>>), Sc("Pol", <<C(1)>>),
             Sc("Var", <<V(y)>>), Sc("Pol", <<V(y), V(x), CV(-1, y)>>), Sc("Pol", <<V(x), CV(-2, x), C(2)>>) >>
NonnegFam(vars) ==
  LET q == Pieces(NSides, 10)
      iy == Pairs(Len(NSides), Len(q))
  IN  [k \in DOMAIN iy |-> LET rs == q[iy[k][2]] IN
         Prog(vars, Mks(<<NSides[iy[k][1]]>> \o rs)
           \o Flat([j \in DOMAIN rs |-> Flat([s \in 1..3 |-> << To(OpSN("cmp", Sen[s], <<1, 1 + j>>, <<1>>), 50 + s), Op("nonneg", <<50 + s>>) >>])]))]

\* environments: every sequence of a few calls
EnvOps == << [op |-> "newvar", s |-> "c", n |-> <<1>>], [op |-> "newvar", s |-> "b", n |-> <<1>>], [op |-> "newvar", s |-> "c", n |-> <<0>>], [op |-> "newvar", s |-> "", n |-> <<2>>],
             [op |-> "newvec", n |-> <<1, 2>>], [op |-> "newmat", s |-> "", n |-> <<1, 2, 1>>], [op |-> "newmat", s |-> "classic", n |-> <<2, 1, 2>>],
             [op |-> "track", n |-> <<1, 0>>], [op |-> "track", n |-> <<1, 1>>], [op |-> "track", n |-> <<1, 3>>], [op |-> "track", n |-> <<2, 1>>], [op |-> "track", n |-> <<0, 2>>] >>
EnvFam ==
  LET n == Len(EnvOps)
      depth == IF DEEP THEN 4 ELSE 3
      seqs == SetToSeq([1..depth -> 1..n])
  IN  [i \in DOMAIN seqs |-> Prog(<<>>, [j \in 1..depth |-> EnvOps[seqs[i][j]]]
         \o << EnvOps[1], [op |-> "all", n |-> <<0>>], [op |-> "all", n |-> <<1>>], [op |-> "all", n |-> <<2>>], [op |-> "mkenv", s |-> "more"], [op |-> "newvec", n |-> <<3, 3>>], [op |-> "envname", n |-> <<3>>], [op |-> "all", n |-> <<1>>] >>)]

\* which conversions each kind has
Convs(k) ==
  LET sc == <<"ToExpression", "ToScalarExpression", "ToPolynomialLike", "ToPolynomialLikeScalar">>
      ve == <<"ToExpression", "ToVectorExpression", "ToPolynomialLike", "ToPolynomialLikeVector">>
      ma == <<"ToExpression", "ToMatrixExpression", "ToPolynomialLike", "ToPolynomialLikeMatrix">>
  IN  CASE k \in {"K", "Var"} -> <<"ToMonomial", "ToPolynomial">> \o sc
        [] k = "Mon" -> <<"ToPolynomial", "ToVariable">> \o sc
        [] k = "Pol" -> sc
        [] k = "KV" -> <<"ToMonomialVector", "ToPolynomialVector", "ToVecDense">> \o ve
        [] k = "VV" -> <<"ToMonomialVector", "ToPolynomialVector">> \o ve
        [] k = "MV" -> <<"ToPolynomialVector">> \o ve
        [] k = "PV" -> ve
        [] k = "KM" -> <<"ToMonomialMatrix", "ToPolynomialMatrix", "ToDense">> \o ma
        [] k = "VM" -> <<"ToMonomialMatrix", "ToPolynomialMatrix">> \o ma
        [] k \in {"MM", "PM"} -> ma
        [] k = "f64" -> <<"ToExpression", "ToScalarExpression">>
        [] k = "VD" -> <<"VecDenseToKVector", "getKVector", "getKVectorF", "ToExpression", "ToVectorExpression">>
        [] k = "pVD" -> <<"VecDenseToKVector", "getKVector">>
        [] k = "D" -> <<"DenseToKMatrix", "getKMatrix", "getKMatrixF", "getKMatrixR", "ToExpression", "ToMatrixExpression">>
        [] k = "pD" -> <<"DenseToKMatrix", "getKMatrix">>
        [] OTHER -> <<>>
AnyConvs == <<"ToExpression", "ToScalarExpression", "ToVectorExpression", "ToMatrixExpression", "ToPolynomialLike",
  "ToPolynomialLikeScalar", "ToPolynomialLikeVector", "ToPolynomialLikeMatrix", "getKVector", "getKMatrix">>
Fresh(k) ==  \* conversions after which either value may be changed alone
  CASE k = "KV" -> <<"ToVecDense">> [] k = "KM" -> <<"ToDense">>
    [] k = "VD" -> <<"VecDenseToKVector", "getKVector", "ToExpression">> [] k = "pVD" -> <<"VecDenseToKVector", "getKVector">>
    [] k = "D" -> <<"DenseToKMatrix", "getKMatrix", "ToExpression">> [] k = "pD" -> <<"DenseToKMatrix", "getKMatrix">> [] OTHER -> <<>>
ConvertFam(vars) ==
  LET lits == SPool \o ArrLits(0) \o ArrLits(1) \o ArrLits(3) \o SubSeq(NPool, 1, 3) \o NumLits(0) \o NumLits(3)
      st(l) == LET cs == Convs(l.k) IN [i \in DOMAIN cs |-> To(OpS("conv", cs[i], <<1>>), 10 + i)] \o <<Op("copy", <<1>>), Op("toscalars", <<1>>), Op("preds", <<1>>)>>
                 \o [i \in DOMAIN AnyConvs |-> To(OpS("conv", AnyConvs[i], <<1>>), 30 + i)]
      fl == SelectSeq(ArrLits(0) \o NumLits(0), LAMBDA l : Fresh(l.k) # <<>>)
      pk == Flat([i \in DOMAIN fl |-> [j \in 1..(fl[i].r * fl[i].c) |->
              Prog(vars, Mks(<<fl[i]>>) \o Flat([c \in DOMAIN Fresh(fl[i].k) |->
                << To(OpS("conv", Fresh(fl[i].k)[c], <<1>>), 10 + c), OpSN("poke", "conv", <<10 + c>>, <<j - 1>>), OpSN("poke", "conv", <<1>>, <<j - 1>>) >>]))]])
      cp == SelectSeq(SPool \o ShapesV(<<"VV">>, 0), LAMBDA l : l.k \in {"Mon", "Pol", "VV"})
  IN  Unary(lits, st, vars) \o pk
      \o Flat([i \in DOMAIN cp |-> [j \in 1..9 |-> Prog(vars, Mks(<<cp[i]>>) \o
           << To(Op("copy", <<1>>), 2), OpSN("poke", "copy", <<2>>, <<j - 1>>), To(Op("copy", <<1>>), 3), OpSN("poke", "copy", <<1>>, <<j - 1>>) >>)]])

\* malformed values in every position of every operation
BadsOf(k) ==
  CASE k \in {"Var", "VV"} -> <<"bounds">> [] k = "VM" -> <<"bounds", "ragged">>
    [] k \in {"Mon", "MV"} -> <<"exp">> [] k = "MM" -> <<"exp", "ragged">>
    [] k \in {"Pol", "PV"} -> <<"nil", "exp">> [] k = "PM" -> <<"nil", "exp", "ragged">>
    [] k = "KM" -> <<"ragged">> [] OTHER -> <<>>
Empty(k) == Lit(k, 0, IF k \in {"KV", "VV", "MV", "PV"} THEN 1 ELSE 0, <<>>)
BadLits(n) ==
  Flat([i \in DOMAIN OneOf(n, 0) |-> LET l == OneOf(n, 0)[i] bs == BadsOf(l.k) IN
    Flat([q \in DOMAIN bs |-> IF bs[q] = "ragged" THEN [r \in 1..(l.r - 1) |-> Bad(l, "ragged", r)]
                              ELSE [e \in 1..Len(l.e) |-> Bad(l, bs[q], e - 1)]])])
  \o [i \in DOMAIN VeKinds |-> Empty(VeKinds[i])] \o [i \in DOMAIN MaKinds |-> Empty(MaKinds[i])]
ValidFam(vars) ==
  LET bl == BadLits(2) \o BadLits(3)
      gs(n) == OneOf(n, 0) \o <<LitOf("f64", 1, 1, 0), LitOf("VD", n, 1, 0), LitOf("D", n, n, 0)>>
      st(i) == LET n == IF bl[i].r >= 2 THEN bl[i].r ELSE 2
                   g == gs(n)
               IN  Prog(vars, Mks(<<bl[i]>> \o g)
                 \o << Op("check", <<1>>), OpN("pow", <<1>>, <<2>>), OpN("pow", <<1>>, <<1>>), OpN("pow", <<1>>, <<0>>), OpV("deriv", <<1>>, <<x>>), OpV("deriv", <<1>>, <<z>>), Op("simp", <<1>>), Op("simplify", <<1>>),
                      OpM("substmap", <<1>>, << <<x, 2>> >>), OpM("substmap", <<4>>, << <<x, 1>>, <<y, 2>> >>), OpM("substmap", <<5>>, << <<x, 1>>, <<y, 2>> >>),
                      OpV("subst", <<4, 1>>, <<x>>), OpV("subst", <<5, 1>>, <<x>>), OpV("subst", <<3, 1>>, <<x>>) >>
                 \o Flat([j \in DOMAIN g |->
                      [o \in DOMAIN Arith |-> Op(Arith[o], <<1, j + 1>>)] \o [o \in DOMAIN Arith |-> Op(Arith[o], <<j + 1, 1>>)]
                      \o << OpSN("cmp", "le", <<1, j + 1>>, <<1>>), OpSN("cmp", "eq", <<j + 1, 1>>, <<1>>), OpV("subst", <<1, j + 1>>, <<x>>) >>])
                 \o [j \in 1..3 |-> To(OpS("mkc", Sen[j], <<1, ((i + j) % Len(g)) + 2>>), 50 + j)]
                 \o Flat([j \in 1..3 |-> << Op("check", <<50 + j>>), Op("cassimp", <<50 + j>>), Op("csimplify", <<50 + j>>), OpV("csubst", <<50 + j, 2>>, <<x>>), OpM("csubstmap", <<50 + j>>, << <<x, 2>> >>) >>]))
  IN  [i \in DOMAIN bl |-> st(i)]
      \o Unary(SPool \o ArrLits(0) \o ArrLits(1) \o ArrLits(3), LAMBDA l : <<Op("check", <<1>>)>>, vars)
      \* constraints put together by hand, fitting or not
      \o LET ls == ShapesV(VeKinds, 0) \o ShapesM(MaKinds, 0)
             rs == ArrLits(1)
             Same(l, r) == (l.k \in {"KV", "VV", "MV", "PV"}) = (r.k \in {"KV", "VV", "MV", "PV"})
             us(l) == SelectSeq(rs, LAMBDA r : Same(l, r))
         IN  [i \in DOMAIN ls |-> LET u == us(ls[i]) IN Prog(vars, Mks(<<ls[i]>> \o u) \o Flat([j \in DOMAIN u |->
                << To(OpS("mkc", Sen[(j % 3) + 1], <<1, j + 1>>), 60 + j), Op("check", <<60 + j>>), Op("cassimp", <<60 + j>>) >>]))]

PrintFam(vars) ==
  LET ps == Pieces([i \in DOMAIN TermLists |-> Sc("Pol", TermLists[i])] \o SPool \o ArrLits(0) \o ArrLits(1) \o ArrLits(2) \o ArrLits(3), 20)
      q == Pieces(SPool, 15)
      iy == SelectSeq(Pairs(Len(SPool), Len(q)), LAMBDA p : DEEP \/ ((p[1] + p[2]) % 2 = 0))
  IN  [k \in DOMAIN ps |-> Prog(vars, Mks(ps[k]) \o [i \in DOMAIN ps[k] |-> Op("str", <<i>>)])]
      \o [k \in DOMAIN iy |-> LET rs == q[iy[k][2]] IN
            Prog(vars, Mks(<<SPool[iy[k][1]]>> \o rs) \o Flat([j \in DOMAIN rs |-> << To(OpSN("cmp", Sen[(j % 3) + 1], <<1, j + 1>>, <<1>>), 50), Op("cstr", <<50>>) >>]))]

\* histories: a call, others on its operands and its result, the call again
PureA == << Cap(Sc("Mon", <<XY(2, x, y)>>)), Cap(Sc("Mon", <<P(1, x, 2)>>)), Cap(Sc("Pol", <<V(x), V(y)>>)), Cap(Sc("Pol", <<XY(1, y, x), CV(2, z), C(1)>>)),
            Cap(Sc("Pol", <<P(1, x, 2), V(x), CV(-1, x)>>)), Sc("Var", <<V(x)>>), Cap(LitOf("MV", 2, 1, 0)), Cap(LitOf("PV", 2, 1, 0)), Cap(LitOf("VV", 2, 1, 0)),
            LitOf("KV", 2, 1, 0), Cap(LitOf("MM", 2, 2, 0)), Cap(LitOf("PM", 2, 2, 0)), LitOf("KM", 2, 2, 0), LitOf("VM", 2, 2, 0) >>
PureB == << Sc("Var", <<V(y)>>), Cap(Sc("Mon", <<XY(-1, x, z)>>)), Cap(Sc("Pol", <<V(y), C(-2)>>)), Sc("K", <<C(2)>>), Cap(LitOf("PV", 2, 1, 1)), Cap(LitOf("MM", 2, 2, 1)), LitOf("KM", 2, 2, 1), LitOf("VV", 2, 1, 1) >>
Calls(a, c) ==
  << Op("plus", <<a, c>>), Op("minus", <<a, c>>), Op("mul", <<a, c>>), OpN("pow", <<a>>, <<2>>), OpV("deriv", <<a>>, <<x>>), OpV("subst", <<a, c>>, <<x>>),
     OpM("substmap", <<a>>, << <<y, 2>> >>), Op("simp", <<a>>), Op("simplify", <<a>>), Op("tr", <<a>>), OpN("at", <<a>>, <<0, 0>>), OpS("conv", "ToPolynomialLike", <<a>>), Op("hstack", <<a, c>>), Op("vstack", <<a, c>>) >>
PureFam(vars) ==
  LET ix == Pairs(Len(PureA), Len(PureB))
      n == Len(Calls(1, 2))
      scal(l) == l.k \in {"K", "Var", "Mon", "Pol"}
      \* converting an array of the other rank is not a repeatable request
      one(i, o) ==
        Prog(vars, Mks(<<PureA[ix[i][1]], PureB[ix[i][2]]>>)
          \o << To(Calls(1, 2)[o], 3) >> \o Calls(3, 2) \o Calls(3, 1) \o Calls(1, 3)
          \o << To(OpSN("cmp", "le", <<1, 2>>, <<1>>), 4), Op("cassimp", <<4>>), Op("csimplify", <<4>>), OpM("csubstmap", <<4>>, << <<y, 2>> >>), OpN("ineqrep", <<4>>, <<0>>) >>
          \o << Op("vars", <<3>>), OpNV("lincoef", <<3>>, <<1>>, <<x, y, z>>), Op("str", <<3>>), Op("degree", <<1>>) >>
          \o << Again(To(Calls(1, 2)[o], 5), 3) >>)
  IN  Flat([i \in DOMAIN ix |-> [o \in 1..n |-> one(i, o)]])

\* the operations on few expressions over variables with coinciding identifiers
IdTerms == << <<V(1)>>, <<V(2)>>, <<V(1), V(2)>>, <<V(1), CV(-1, 2)>>, <<V(1), V(5), V(2), C(1)>>, <<XY(1, 1, 2)>>, <<T(2, 0, <<<<1, 2>>, <<2, 1>>>>)>>,
              <<V(3), V(4)>>, <<CV(2, 1), CV(3, 6), CV(-1, 3)>>, <<XY(1, 1, 5), XY(1, 2, 5)>>, <<P(1, 1, 2), P(1, 2, 2)>> >>
IdLits == Flat([i \in DOMAIN IdTerms |->
             IF Len(IdTerms[i]) = 1
             THEN <<Sc("Mon", IdTerms[i]), Sc("Pol", IdTerms[i])>> \o (IF IdTerms[i][1].c = <<1, 0>> /\ Len(IdTerms[i][1].f) = 1 /\ IdTerms[i][1].f[1][2] = 1 THEN <<Sc("Var", IdTerms[i])>> ELSE <<>>)
             ELSE <<Sc("Pol", IdTerms[i])>>])
          \o << Lit("VV", 3, 1, <<<<V(1)>>, <<V(2)>>, <<V(5)>>>>), Lit("VM", 2, 2, <<<<V(1)>>, <<V(2)>>, <<V(3)>>, <<V(4)>>>>), Lit("MV", 2, 1, <<<<CV(2, 2)>>, <<CV(3, 1)>>>>), Lit("PV", 2, 1, <<<<V(1), V(2)>>, <<V(5), C(1)>>>>), Lit("PM", 1, 2, <<<<V(1), V(2)>>, <<V(4), CV(-1, 3)>>>>) >>
IdentFam ==
  LET ix == Pairs(Len(IdLits), Len(IdLits))
      st == << Op("plus", <<1, 2>>), Op("minus", <<1, 2>>), Op("mul", <<1, 2>>), To(OpSN("cmp", "le", <<1, 2>>, <<1>>), 5), To(OpSN("cmp", "eq", <<1, 2>>, <<1>>), 6),
               Op("cvars", <<5>>), Op("cvarsfn", <<5>>), OpN("ineqrep", <<5>>, <<0>>), OpNV("ineqrep", <<5>>, <<1>>, <<5, 4, 3, 2, 1, 6>>), OpNV("eqrep", <<6>>, <<1>>, <<2, 1, 6, 5, 3, 4>>), OpN("eqrep", <<6>>, <<0>>),
               Op("cassimp", <<5>>), Op("csimplify", <<6>>), Op("implies", <<5, 6>>), Op("implies", <<6, 5>>), Op("matches", <<1, 2>>), Op("monidx", <<1, 2>>), Op("nonneg", <<5>>) >>
            \o [v \in 1..6 |-> OpV("subst", <<1, 2>>, <<v>>)] \o [v \in 1..3 |-> OpV("csubst", <<5, 2>>, <<v>>)]
            \o [v \in 1..3 |-> OpM("substmap", <<1>>, << <<v, 2>>, <<v + 3, 1>> >>)]
      un(l) == <<Op("vars", <<1>>), Op("numvars", <<1>>), OpN("lincoef", <<1>>, <<0>>), OpNV("lincoef", <<1>>, <<1>>, <<1, 2, 3, 4, 5, 6>>), OpNV("lincoef", <<1>>, <<1>>, <<6, 5, 4, 3, 2, 1>>), Op("simp", <<1>>), Op("simplify", <<1>>), Op("degree", <<1>>), Op("islin", <<1>>)>>
               \o Flat([v \in 1..6 |-> << OpV("deriv", <<1>>, <<v>>), OpV("isvar", <<1>>, <<v>>), OpV("isdeg1", <<1>>, <<v>>), OpV("varmonidx", <<1>>, <<v>>) >>])
      two(t) == [k \in DOMAIN ix |-> Prog(t, Mks(<<IdLits[ix[k][1]], IdLits[ix[k][2]]>>) \o st)]
      vl == Pieces(SetToSeq(UNION {[1..k -> 1..6] : k \in 1..3}), 25)
      ul(t) == [k \in DOMAIN vl |-> Prog(t, Flat([j \in DOMAIN vl[k] |-> << OpV("uniq", <<>>, vl[k][j]), OpNV("union", <<>>, <<1, Len(vl[k][j]) - 1>>, vl[k][j]) >>]))]
      cl == Pieces(SPool, 16)
      sc(t) == Binary(IdLits, SPool, <<"plus", "mul">>, 25, t)
  IN  two(T2) \o two(T3) \o Unary(IdLits, un, T2) \o Unary(IdLits, un, T3) \o ul(T2) \o ul(T3) \o sc(T2) \o (IF DEEP THEN sc(T3) ELSE <<>>)

-----------------------------------------------------------------------------

Programs ==
  CASE FAM = "scal" -> Scal(T1)
    [] FAM = "arr" -> ArrFam(T1, 0)
    [] FAM = "arr2" -> ArrFam(T1, 3) \o ArrFam(T1, 2)
    [] FAM = "shape" -> ShapeFam(T1)
    [] FAM = "deriv" -> DerivFam(T1) \o (IF DEEP THEN DerivFam(T2) ELSE <<>>)
    [] FAM = "subst" -> SubstFam(T1) \o (IF DEEP THEN SubstFam(T2) ELSE <<>>)
    [] FAM = "submap" -> SubMapFam(T1) \o (IF DEEP THEN SubMapFam(T2) ELSE <<>>)
    [] FAM = "simp" -> SimpFam(T1) \o (IF DEEP THEN SimpFam(T2) ELSE <<>>)
    [] FAM = "query" -> QueryFam(T1) \o (IF DEEP THEN QueryFam(T2) ELSE <<>>)
    [] FAM = "place" -> PlaceFam(T1)
    [] FAM = "compare" -> CompareFam(T1)
    [] FAM = "rewrite" -> RewriteFam(T1)
    [] FAM = "linrep" -> LinRepFam(T1) \o (IF DEEP THEN LinRepFam(T2) ELSE <<>>)
    [] FAM = "implies" -> ImpliesFam(T1)
    [] FAM = "nonneg" -> NonnegFam(T1) \o (IF DEEP THEN NonnegFam(T2) ELSE <<>>)
    [] FAM = "env" -> EnvFam
    [] FAM = "convert" -> ConvertFam(T1)
    [] FAM = "valid" -> ValidFam(T1)
    [] FAM = "print" -> PrintFam(T1)
    [] FAM = "pure" -> PureFam(T1)
    [] FAM = "ident" -> IdentFam

N == Len(Programs)
Mine == LET n == (N - SLICE + NSLICE - 1) \div NSLICE
        IN  [k \in 1..n |-> [Programs[(k - 1) * NSLICE + SLICE + 1] EXCEPT !.p = (k - 1) * NSLICE + SLICE]]

ASSUME PrintT(<<"PROGRAMS", N>>) /\ ndJsonSerialize(IOEnv.GEN_OUT, Mine)
=============================================================================
