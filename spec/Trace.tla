------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of traces recorded from the implementation.                  *)
(*                                                                         *)
(* One event per public call: operation, operands, outcome (values         *)
(* returned, answer, or refusal), and every older value whose contents     *)
(* changed during the call.  The heap holds what was observed, so that     *)
(* after a disagreement the rest of the trace is still checked against     *)
(* the true operands.  Each disagreement is printed as a REJECT line       *)
(* naming the properties it breaks.                                        *)
(***************************************************************************)
EXTENDS SymTypes, Refusals, Reasons, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES pos,      \* next event
          heap,     \* values observed so far in the current program
          envs,     \* environments: envs[1] is the default one; tracked variables
          vt        \* variable table of the current program

vars == <<pos, heap, envs, vt>>

Ev == Log[pos]
X(i) == heap[Ev.a[i]]
Xs == [i \in DOMAIN Ev.a |-> heap[Ev.a[i]]]
OK == Ev.st = "ok"

\* identifiers coincide across environments in this program
XEnv == vt.xenv
AllDistinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)

-----------------------------------------------------------------------------
(* Generic clauses on the outcome of a call.  A clause is <<property, what>> *)

ShapeOf(o) == <<o.r, o.c>>

\* well-formedness, identity of variables and reported shape of one expression
WfE(o, opnds) ==
       (IF o.mal \/ o.chk # "ok" THEN {<<"C18", "malformed result">>} ELSE {})
  \cup (IF ~o.mal /\ o.d # ShapeOf(o) THEN {<<"C04", "reported shape">>} ELSE {})
  \cup (IF o.mm THEN {<<"C17", "variable changed">>} ELSE {})

ObsForeign(o) == \E i \in DOMAIN o.e : \E j \in DOMAIN o.e[i] : o.e[i][j][3][NS] # 0

WfRes(o) ==
  IF o.t = "c"
  THEN WfE(o.l, {}) \cup WfE(o.rr, {})
       \cup (IF o.chk # "ok" THEN {<<"C18", "malformed constraint">>} ELSE {})
       \cup (IF ObsForeign(o.l) \/ ObsForeign(o.rr) THEN {<<"C17", "foreign variable">>} ELSE {})
  ELSE WfE(o, {}) \cup (IF ObsForeign(o) THEN {<<"C17", "foreign variable">>} ELSE {})

\* values o (observations) against expected arrays
ValClauses(res, vals, tag) ==
  IF Len(res) # Len(vals) THEN {<<tag, "number of values">>}
  ELSE UNION {
    LET o == res[i] e == vals[i]
    IN  IF o.t # "e" THEN {<<tag, "not an expression">>}
        ELSE IF o.mal THEN {<<tag, "malformed">>}
        ELSE IF o.r # e.r \/ o.c # e.c THEN {<<tag, "shape">>, <<"C04", "shape">>}
        ELSE IF o.bad \/ ToVal(o).p # e.p
             THEN {<<tag, "value">>} \cup (IF XEnv THEN {<<"C17", "value">>} ELSE {})
        ELSE {}
    : i \in DOMAIN res}

ConstKinds == {"K", "KV", "KM"}
\* substituting in constants does not look at anything, and constants and
\* variables are their own simplified form
Idle ==
  \/ Ev.op \in {"subst", "substmap"} /\ X(1).k \in ConstKinds
  \/ Ev.op = "simp" /\ X(1).k \in ConstKinds \cup {"Var", "VV", "VM"}

\* the outcome against an answer
Outcome(ans, tag, may) ==
  CASE Ev.st = "hang" -> {<<tag, "no answer">>}
    [] ans.t = "val" /\ OK -> ValClauses(Ev.res, ans.v, tag) \cup UNION {WfRes(Ev.res[i]) : i \in DOMAIN Ev.res}
    [] ans.t = "val" /\ ~OK -> IF may THEN {} ELSE {<<tag, "refused">>, <<"C18", "refused">>}
    [] ans.t = "inv" /\ OK -> IF Idle THEN {} ELSE {<<"C04", "accepted">>, <<tag, "accepted">>}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Operands.                                                               *)

AnyMal == \E i \in DOMAIN Ev.a : IF X(i).t = "c" THEN X(i).l.mal \/ X(i).rr.mal ELSE X(i).mal
AnyIrr == \E i \in DOMAIN Ev.a :
            IF X(i).t = "c" THEN X(i).l.irr \/ X(i).rr.irr \/ X(i).l.bad \/ X(i).rr.bad
            ELSE X(i).irr \/ X(i).bad
SubMapVals == [i \in DOMAIN Ev.m |-> heap[Ev.m[i][2]]]
MapMal == \E i \in DOMAIN Ev.m : SubMapVals[i].mal
MapIrr == \E i \in DOMAIN Ev.m : SubMapVals[i].irr \/ SubMapVals[i].bad
SubMap == [i \in DOMAIN Ev.m |-> <<Ev.m[i][1], Den(heap[Ev.m[i][2]])>>]

Scalars(xs) == \A i \in DOMAIN xs : AIs1(xs[i])
K1 == IF Len(Ev.a) >= 1 THEN X(1).k ELSE ""
K2 == IF Len(Ev.a) >= 2 THEN X(2).k ELSE ""

\* an operand is a matrix with one column
OneCol(x) == x.k \in MatrixKinds \cup {"D", "pD"} /\ x.c = 1
Col == \E i \in DOMAIN Ev.a :
         IF X(i).t = "c" THEN OneCol(X(i).l) \/ OneCol(X(i).rr) ELSE OneCol(X(i))

\* a one-element array used like a scalar next to a larger array: the library
\* may refuse or broadcast, but not truncate
OneElement(x, y) == x.k \notin ScalarKinds \cup {"f64", "int"} /\ AIs1(x) /\ ~AIs1(y)

-----------------------------------------------------------------------------
(* Operations returning expressions: answer, property, may be refused      *)

ExprOps == {"plus", "minus", "minusfn", "mul", "pow", "tr", "deriv", "subst", "substmap",
            "at", "atvec", "simp", "simplify", "hstack", "vstack", "conce", "concev", "concv",
            "concem", "concm", "conv", "copy", "toscalars"}

Tag ==
  CASE Ev.op \in {"plus", "minus", "minusfn", "mul", "pow"} ->
         IF \A i \in DOMAIN Ev.a : X(i).k \in ScalarKinds \cup {"f64", "int"} THEN "C02" ELSE "C03"
    [] Ev.op = "deriv" -> "C05"
    [] Ev.op = "subst" -> "C06"
    [] Ev.op = "substmap" -> "C07"
    [] Ev.op \in {"simp", "simplify"} -> "C08"
    [] Ev.op \in {"conv", "copy", "toscalars"} -> "C19"
    [] OTHER -> "C10"

Answer ==
  CASE Ev.op = "plus" -> AnsPlus(Den(X(1)), Den(X(2)))
    [] Ev.op \in {"minus", "minusfn"} -> AnsMinus(Den(X(1)), Den(X(2)))
    [] Ev.op = "mul" -> AnsMul(Den(X(1)), Den(X(2)))
    [] Ev.op = "pow" -> AnsPow(Den(X(1)), Ev.n[1])
    [] Ev.op = "tr" -> AnsTranspose(Den(X(1)))
    [] Ev.op = "deriv" -> AnsDeriv(Den(X(1)), Ev.v[1])
    [] Ev.op = "subst" -> AnsSubst(Den(X(1)), Ev.v[1], Den(X(2)))
    [] Ev.op = "substmap" -> AnsSubstMap(Den(X(1)), SubMap)
    [] Ev.op = "at" -> AnsAt(Den(X(1)), Ev.n[1], Ev.n[2])
    [] Ev.op = "atvec" -> AnsAtVec(Den(X(1)), Ev.n[1])
    [] Ev.op = "hstack" -> AnsHStack([i \in DOMAIN Ev.a |-> Den(X(i))])
    [] Ev.op = "vstack" -> AnsVStack([i \in DOMAIN Ev.a |-> Den(X(i))])
    [] Ev.op \in {"concev", "concv"} -> AnsVector([i \in DOMAIN Ev.a |-> X(i).p[1]])
    [] Ev.op \in {"concem", "concm"} -> AnsMatrix(Ev.n, [i \in DOMAIN Ev.a |-> X(i).p[1]])
    [] Ev.op = "toscalars" -> AnsScalars(Den(X(1)))
    [] OTHER -> AnsSame(Den(X(1)))        \* simp, simplify, conce, conv, copy

\* conversions that cannot preserve the value
ConvInvalid ==
  /\ Ev.op = "conv"
  /\ \/ Ev.s = "ToVariable" /\ \A v \in Slots : X(1).p[1] # PVar(v)
     \/ Ev.s = "getKMatrixR" /\ X(1).r > 1
     \/ Ev.s \in {"ToScalarExpression", "ToPolynomialLikeScalar"} /\ ~AIs1(X(1))
     \/ Ev.s \in {"ToVectorExpression", "ToPolynomialLikeVector", "getKVector"} /\ X(1).c # 1
     \/ Ev.s \in {"getKVector", "getKMatrix"} /\ ~AIsConst(X(1))

\* kinds that the conversions applicable to anything are meant for
Takes(s) ==
  LET sc == ScalarKinds \cup {"f64"}
      ve == VectorKinds \cup {"VD"}
      ma == MatrixKinds \cup {"D"}
  IN  CASE s = "ToExpression" -> sc \cup ve \cup ma
        [] s = "ToScalarExpression" -> sc
        [] s = "ToVectorExpression" -> ve
        [] s = "ToMatrixExpression" -> ma
        [] s = "ToPolynomialLike" -> ScalarKinds \cup VectorKinds \cup MatrixKinds
        [] s = "ToPolynomialLikeScalar" -> ScalarKinds
        [] s = "ToPolynomialLikeVector" -> VectorKinds
        [] s = "ToPolynomialLikeMatrix" -> MatrixKinds
        [] s = "getKVector" -> {"KV", "VD", "pVD"}
        [] s = "getKMatrix" -> {"KM", "D", "pD"}
        [] OTHER -> {K1}

May ==
  \/ MayRefuse(Ev.op, K1, K2, Col)
  \/ Ev.op = "conv" /\ K1 \notin Takes(Ev.s)
  \/ Len(Ev.a) = 2 /\ Ev.op \in {"plus", "minus", "minusfn", "mul"}
       /\ ~(Ev.op = "mul" /\ X(1).c = X(2).r)
       /\ (OneElement(X(1), X(2)) \/ OneElement(X(2), X(1)))

\* canonical result of simplification
SimplifyClauses ==
  IF Ev.op \in {"simp", "simplify", "conce"} /\ OK /\ Len(Ev.res) = 1 /\ Ev.res[1].t = "e" /\ ~Ev.res[1].mal
  THEN LET v == ToVal(Ev.res[1])
       IN  (IF Ev.op \in {"simp", "simplify"} /\ ~v.can THEN {<<"C08", "not canonical">>} ELSE {})
           \cup
           (IF Ev.op \in {"simp"} /\ v.k \in ScalarKinds /\ v.k # SimplestScalar(v.p[1])
            THEN {<<"C08", "not the simplest kind">>} ELSE {})
  ELSE {}

\* operations that must refuse malformed operands
MalOps == {"plus", "minus", "minusfn", "mul", "pow", "deriv", "subst", "substmap", "simp",
           "simplify", "cmp", "csimplify", "cassimp", "csubst", "csubstmap"}
ExprClauses ==
  IF AnyMal \/ (Ev.op = "substmap" /\ MapMal)
  THEN IF OK /\ Ev.op \in MalOps /\ ~Idle THEN {<<"C18", "malformed operand accepted">>} ELSE {}
  ELSE IF AnyIrr \/ (Ev.op = "substmap" /\ MapIrr) THEN {}
  ELSE IF ConvInvalid THEN (IF OK THEN {<<"C19", "accepted">>} ELSE {})
  ELSE IF Ev.op = "substmap" /\ Ev.s = "badkey"
       THEN IF OK /\ ~Idle THEN {<<"C07", "invalid map accepted">>, <<"C18", "invalid map accepted">>} ELSE {}
  ELSE Outcome(Answer, Tag, May) \cup SimplifyClauses
       \cup (IF Ev.op \in {"concev", "concv", "concem", "concm"} THEN Outcome(Answer, "C19", May) ELSE {})

\* the same call made earlier in the program returned register Ev.same
SameClauses ==
  IF Ev.same > 0 /\ OK /\ Len(Ev.res) = 1 /\ Ev.res[1].t = "e" /\ ~AnyMal /\ ~Ev.res[1].mal
  THEN LET v == ToVal(Ev.res[1]) w == heap[Ev.same]
       IN  IF v.r = w.r /\ v.c = w.c /\ v.p = w.p THEN {} ELSE {<<"C01", "repeated call differs">>}
  ELSE IF Ev.same > 0 /\ ~OK /\ ~AnyMal THEN {<<"C01", "repeated call refused">>} ELSE {}

-----------------------------------------------------------------------------
(* Queries on expressions                                                  *)

QueryOps == {"check", "dims", "len", "degree", "vars", "numvars", "varids", "const", "lincoef",
             "islin", "isquad", "isconst", "iszero", "isvar", "isdeg1", "matches", "monidx",
             "varmonidx", "constmonidx", "issquare", "preds", "str", "uniq", "union", "unique", "find"}

If(b, c) == IF b THEN {} ELSE {c}
Bool(b) == IF b THEN 1 ELSE 0
VarSlots(q) == {q[i][1] : i \in DOMAIN q}
VarsIntact(q) == \A i \in DOMAIN q : q[i][2] = 1
VarListClauses(q, S, tag, exact) ==
       If(IF exact THEN VarSlots(q) = S ELSE S \subseteq VarSlots(q), <<tag, "variables">>)
  \cup If(~exact \/ Len(q) = Cardinality(VarSlots(q)), <<tag, "variable listed twice">>)
  \cup If(VarsIntact(q), <<"C17", "variable changed">>)
  \cup If(NS \notin VarSlots(q), <<"C17", "foreign variable">>)
  \cup (IF XEnv THEN If(S \subseteq VarSlots(q), <<"C17", "variables">>) ELSE {})

\* rows of coefficients against polynomials, in the order of slots w
CoefRows(a, w) == [i \in 1..Len(a.p) |-> [j \in DOMAIN w |-> PLinCoef(a.p[i], w[j])]]
ConstRows(a) == [i \in 1..a.r |-> [j \in 1..a.c |-> PConstTerm(AEnt(a, i, j))]]

ExpectPreds(k) ==
  CASE k \in ScalarKinds \cup {"f64"} -> <<1, 1, 0, 0, 1, 1, 0, 0, 0>>
    [] k \in VectorKinds \cup {"VD"} -> <<1, 0, 1, 0, 1, 0, 1, 0, 0>>
    [] k \in MatrixKinds \cup {"D"} -> <<1, 0, 0, 1, 1, 0, 0, 1, 0>>
    [] OTHER -> <<>>

\* a parsed printed form against an array
Printed(q, x) ==
  /\ q.ok = 1
  /\ q.r = x.r /\ q.c = x.c
  /\ \A i \in DOMAIN q.e : EntPoly(q.e[i]) = x.p[i]

QueryValid ==     \* the query has an answer
  CASE Ev.op = "lincoef" ->
         IF Ev.n[1] = 1 THEN Len(Ev.v) > 0 ELSE AVars(X(1)) # {}
    [] OTHER -> TRUE

QueryTag == CASE Ev.op = "str" -> "C20"
              [] Ev.op = "check" -> "C18"
              [] Ev.op \in {"dims", "len"} -> "C04"
              [] OTHER -> "C09"

AnswerClauses ==
  LET q == Ev.q x == X(1)
  IN
  CASE Ev.op = "dims" -> If(q = <<x.r, x.c>>, <<"C04", "dims">>)
    [] Ev.op = "len" -> If(q = <<x.r, x.r>>, <<"C04", "len">>)
    [] Ev.op = "degree" -> If(IF x.can THEN q = ADegree(x) ELSE q >= ADegree(x), <<"C09", "degree">>)
    [] Ev.op = "vars" -> VarListClauses(q, AVars(x), "C09", x.can)
    [] Ev.op = "numvars" -> If(IF x.can THEN q = Cardinality(AVars(x)) ELSE q >= Cardinality(AVars(x)), <<"C09", "number of variables">>)
    [] Ev.op = "varids" -> If(IF x.can THEN {q[i] : i \in DOMAIN q} = {vt.ids[v] : v \in AVars(x)}
                              ELSE {vt.ids[v] : v \in AVars(x)} \subseteq {q[i] : i \in DOMAIN q}, <<"C09", "variable ids">>)
    [] Ev.op = "const" -> If(q = ConstRows(x), <<"C09", "constant">>)
    [] Ev.op = "lincoef" ->
         LET w == [i \in DOMAIN q[2] |-> q[2][i][1]]
         IN  IF ~AllDistinct(w) THEN {}
             ELSE If(q[1] = CoefRows(x, w), <<"C09", "linear coefficients">>)
                  \cup (IF XEnv THEN If(q[1] = CoefRows(x, w), <<"C17", "linear coefficients">>) ELSE {})
    [] Ev.op = "islin" -> IF x.can THEN If(q = Bool(ADegree(x) <= 1), <<"C09", "is linear">>) ELSE {}
    [] Ev.op = "isquad" -> IF x.can THEN If(q = Bool(ADegree(x) <= 2), <<"C09", "is quadratic">>) ELSE {}
    [] Ev.op = "isconst" -> IF x.can THEN If(q = Bool(AIsConst(x)), <<"C09", "is constant">>) ELSE {}
    [] Ev.op = "iszero" -> If(q = Bool(AIsZero(x)), <<"C09", "is zero">>)
    [] Ev.op = "isvar" -> IF x.can THEN If(q = Bool(x.p[1] = PVar(Ev.v[1])), <<"C09", "is the variable">>) ELSE {}
    [] Ev.op = "isdeg1" -> IF x.can THEN If(q = Bool(DOMAIN x.p[1] = {EUnit(Ev.v[1])}), <<"C09", "is a multiple of the variable">>) ELSE {}
    [] Ev.op = "matches" -> IF AIsZero(x) \/ AIsZero(X(2)) THEN {}
                            ELSE If(q = Bool(DOMAIN x.p[1] = DOMAIN X(2).p[1]), <<"C09", "same form">>)
    [] Ev.op = "monidx" ->
         IF ~x.can \/ AIsZero(x) \/ AIsZero(X(2)) THEN {}
         ELSE LET e == CHOOSE y \in DOMAIN X(2).p[1] : TRUE
              IN  If(IF e \in DOMAIN x.p[1] THEN q[1] >= 0 /\ q[2] = e ELSE q[1] = -1, <<"C09", "term index">>)
    [] Ev.op = "varmonidx" ->
         IF ~x.can \/ AIsZero(x) THEN {}
         ELSE LET e == EUnit(Ev.v[1])
              IN  If(IF e \in DOMAIN x.p[1] THEN q[1] >= 0 /\ q[2] = e ELSE q[1] = -1, <<"C09", "variable index">>)
    [] Ev.op = "constmonidx" ->
         IF ~x.can \/ AIsZero(x) THEN {}
         ELSE If(IF EZero \in DOMAIN x.p[1] THEN q[1] >= 0 /\ q[2] = EZero ELSE q[1] = -1, <<"C09", "constant index">>)
    [] Ev.op = "issquare" -> If(q = Bool(x.r = x.c), <<"C09", "is square">>)
    [] Ev.op = "preds" -> If(ExpectPreds(x.k) = <<>> \/ q = ExpectPreds(x.k), <<"C09", "classification">>)
    [] Ev.op = "str" -> IF vt.dupnames THEN {} ELSE If(Printed(q, x), <<"C20", "printed form">>)
    [] OTHER -> {}

CShape(c) == IF AIs1(c.l) THEN <<c.rr.r, c.rr.c>> ELSE <<c.l.r, c.l.c>>
CSize(c) == CShape(c)[1] * CShape(c)[2]
CEntry(c, k) == <<PSub(AB(c.l, k), AB(c.rr, k)), c.s>>
CEntries(c) == {CEntry(c, k) : k \in 1..CSize(c)}

CMal(c) ==
  \/ c.l.mal \/ c.rr.mal
  \/ c.s \notin Senses
  \/ (c.k # "S" /\ ~(ASame(c.l, c.rr) \/ AIs1(c.l) \/ AIs1(c.rr)))

\* a one-element array beside a larger array: the library may broadcast or refuse
CAmb(c) == OneElement(c.l, c.rr) \/ OneElement(c.rr, c.l)

QueryClauses ==
  CASE Ev.op = "check" /\ X(1).t = "c" /\ CAmb(X(1)) -> {}
    [] Ev.op = "check" ->
         LET mal == IF X(1).t = "c" THEN CMal(X(1)) ELSE X(1).mal
         IN  IF ~OK THEN {<<"C18", "check fails">>} ELSE If(Ev.q = Bool(~mal), <<"C18", "validity">>)
    [] Ev.op \in {"uniq", "union"} ->
         IF ~OK THEN {<<"C09", "refused">>}
         ELSE VarListClauses(Ev.q, {Ev.v[i] : i \in DOMAIN Ev.v}, "C09", TRUE)
    [] Ev.op = "unique" ->
         IF ~OK THEN {<<"C09", "refused">>}
         ELSE If({Ev.q[i] : i \in DOMAIN Ev.q} = {Ev.n[i] : i \in DOMAIN Ev.n} /\ AllDistinct(Ev.q), <<"C09", "unique numbers">>)
    [] Ev.op = "find" ->
         LET l == IF Ev.s = "var" THEN Ev.v ELSE Ev.n
             w == Tail(l)
         IN  IF Ev.s = "wrong" THEN (IF OK THEN {<<"C09", "accepted">>} ELSE {})
             ELSE IF ~OK THEN {<<"C09", "refused">>}
             ELSE IF (IF l[1] \in {w[i] : i \in DOMAIN w} THEN Ev.q >= 0 /\ Ev.q < Len(w) /\ w[Ev.q + 1] = l[1] ELSE Ev.q = -1)
                  THEN {} ELSE {<<"C09", "position in a list">>} \cup (IF Ev.s = "var" THEN {<<"C17", "position in a list">>} ELSE {})
    [] Ev.op = "preds" /\ X(1).t = "c" ->
         IF ~OK THEN {<<"C09", "refused">>} ELSE If(Ev.q = <<0, 1, 1>>, <<"C09", "classification">>)
    [] AnyMal \/ AnyIrr -> {}
    [] OTHER ->
         IF Ev.st = "hang" THEN {<<QueryTag, "no answer">>}
         ELSE IF ~QueryValid /\ (~OK \/ X(1).can) THEN (IF OK THEN {<<"C09", "accepted">>} ELSE {})
         ELSE IF ~OK THEN {<<QueryTag, "refused">>, <<"C18", "refused">>}
         ELSE AnswerClauses

-----------------------------------------------------------------------------
(* Constraints                                                             *)

ConOps == {"cmp", "mkc", "left", "right", "catvec", "cat", "csimplify", "cassimp", "cscale",
           "csubst", "csubstmap", "compile"}
ConQueries == {"csense", "cdims", "clen", "cvars", "cvarsfn", "cislin", "implies", "nonneg",
               "ineqrep", "eqrep", "cstr"}

\* a constraint observation against sides (with broadcast), shape and sense
ConIs(o, l, r, shape, s, tag) ==
  IF o.t # "c" THEN {<<tag, "not a constraint">>}
  ELSE LET c == ToCon(o)
       IN  If(c.s = s, <<tag, "sense">>)
           \cup (IF c.l.mal \/ c.rr.mal THEN {<<tag, "malformed">>}
                 ELSE IF CShape(c) # shape THEN {<<tag, "shape">>, <<"C04", "shape">>}
                 ELSE If(~c.l.bad /\ \A k \in 1..(shape[1] * shape[2]) : AB(c.l, k) = AB(l, k), <<tag, "left side">>)
                      \cup If(~c.rr.bad /\ \A k \in 1..(shape[1] * shape[2]) : AB(c.rr, k) = AB(r, k), <<tag, "right side">>))

XTag(cl, tag) == cl \cup (IF XEnv /\ (\E x \in cl : x[1] = tag) THEN {<<"C17", "value">>} ELSE {})

Rewritten(o, c) ==      \* same solution set, entry by entry
  IF o.t # "c" THEN {<<"C12", "not a constraint">>}
  ELSE LET d == ToCon(o)
       IN  IF d.l.mal \/ d.rr.mal \/ d.l.bad \/ d.rr.bad THEN {<<"C12", "malformed">>}
           ELSE IF CShape(d) # CShape(c) THEN {<<"C12", "shape">>, <<"C04", "shape">>}
           ELSE If(\A k \in 1..CSize(c) :
                     LET x == CEntry(c, k) y == CEntry(d, k) IN SameEntry(x[1], x[2], y[1], y[2]),
                   <<"C12", "solution set">>)
SimplForm(o, consts) ==
  IF o.t # "c" THEN {}
  ELSE LET d == ToCon(o)
       IN  IF d.l.mal \/ d.rr.mal THEN {}
           ELSE If(AIsConst(d.rr), <<"C12", "variables on the right">>)
                \cup If(~consts \/ \A i \in DOMAIN d.l.p : PConstTerm(d.l.p[i]) = DZero, <<"C12", "constant on the left">>)

CIdle(x) == x.l.k \in ConstKinds /\ x.rr.k \in ConstKinds

WfAll == UNION {WfRes(Ev.res[i]) : i \in DOMAIN Ev.res}

Refused(tag) == IF MayRefuse(Ev.op, X(1).l.k, X(1).rr.k, Col) THEN {} ELSE {<<tag, "refused">>, <<"C18", "refused">>}

\* values made from literals: valid exactly when well formed, of the right shape
MkClauses ==
  LET o == Ev.res[1] IN
  IF ~OK \/ Len(Ev.res) # 1 \/ o.t # "e" THEN {}
  ELSE If(o.chk = (IF o.mal THEN "err" ELSE "ok"), <<"C18", "validity">>)
       \cup If(o.mal \/ o.d = ShapeOf(o), <<"C04", "reported shape">>)

ConClauses ==
  LET x == X(1) IN
  CASE Ev.op = "mkc" ->
         IF ~OK \/ Ev.res[1].t # "c" THEN {}
         ELSE LET c == ToCon(Ev.res[1]) IN
              IF CAmb(c) THEN {} ELSE If(Ev.res[1].chk = (IF CMal(c) THEN "err" ELSE "ok"), <<"C18", "validity">>)
    [] Ev.op = "cmp" ->
         LET y == X(2)
         IN  IF x.mal \/ y.mal THEN (IF OK THEN {<<"C18", "malformed operand accepted">>} ELSE {})
             ELSE IF Ev.s \notin Senses THEN {}
             ELSE IF ~ASumOk(x, y) THEN (IF OK THEN {<<"C04", "accepted">>, <<"C11", "accepted">>} ELSE {})
             ELSE IF ~OK THEN (IF MayRefuse(Ev.op, K1, K2, Col) \/ OneElement(x, y) \/ OneElement(y, x) THEN {} ELSE {<<"C11", "refused">>, <<"C18", "refused">>})
             ELSE IF x.bad \/ y.bad THEN {}
             ELSE ConIs(Ev.res[1], x, y, IF AIs1(x) THEN <<y.r, y.c>> ELSE <<x.r, x.c>>, Ev.s, "C11") \cup WfAll
    [] \E i \in DOMAIN Ev.a : X(i).t = "c" /\ CMal(X(i)) ->
         IF OK /\ Ev.op \in MalOps THEN {<<"C18", "malformed constraint accepted">>} ELSE {}
    [] \E i \in DOMAIN Ev.a : X(i).t = "c" /\ CAmb(X(i)) -> {}
    [] Ev.op \in {"left", "right"} ->
         IF ~OK THEN {<<"C11", "refused">>}
         ELSE ValClauses(Ev.res, <<Den(IF Ev.op = "left" THEN x.l ELSE x.rr)>>, "C11")
    [] Ev.op \in {"catvec", "cat"} ->
         LET i == Ev.n[1]
             j == IF Ev.op = "cat" THEN Ev.n[2] ELSE 0
             sh == CShape(x)
         IN  IF i < 0 \/ j < 0 \/ i >= sh[1] \/ j >= sh[2]
             THEN (IF OK THEN {<<"C04", "accepted">>, <<"C11", "accepted">>} ELSE {})
             ELSE IF ~OK THEN Refused("C11")
             ELSE LET k == i * sh[2] + j + 1
                  IN  ConIs(Ev.res[1], Sca(AB(x.l, k)), Sca(AB(x.rr, k)), <<1, 1>>, x.s, "C11") \cup WfAll
    [] Ev.op = "compile" ->
         IF ~OK THEN Refused("C11")
         ELSE LET exp == FoldLeft(LAMBDA acc, c : acc \o [k \in 1..CSize(c) |-> <<AB(c.l, k), AB(c.rr, k), c.s>>], <<>>, Xs)
              IN  IF Len(exp) # Len(Ev.res) THEN {<<"C11", "number of constraints">>}
                  ELSE UNION {ConIs(Ev.res[i], Sca(exp[i][1]), Sca(exp[i][2]), <<1, 1>>, exp[i][3], "C11") : i \in DOMAIN exp} \cup WfAll
    [] AnyIrr -> {}
    [] Ev.op \in {"csimplify", "cassimp"} ->
         IF ~OK THEN Refused("C12")
         ELSE XTag(Rewritten(Ev.res[1], x) \cup SimplForm(Ev.res[1], Ev.op = "cassimp"), "C12") \cup WfAll
    [] Ev.op = "cscale" ->
         IF Ev.f[1] = 0 THEN {}
         ELSE IF ~OK THEN Refused("C12")
         ELSE LET f == Ev.f
                  s == IF f[1] < 0 THEN Flip(x.s) ELSE x.s
              IN  Rewritten(Ev.res[1], x) \cup WfAll
                  \cup (IF Ev.res[1].t = "c"
                        THEN LET d == ToCon(Ev.res[1])
                             IN  IF d.l.mal \/ d.rr.mal \/ CShape(d) # CShape(x) THEN {}
                                 ELSE If(d.s = s /\ \A k \in 1..CSize(x) : CEntry(d, k)[1] = PScale(f, CEntry(x, k)[1]), <<"C12", "scaling">>)
                        ELSE {})
    [] Ev.op = "csubst" ->
         IF X(2).mal THEN (IF OK /\ ~CIdle(x) THEN {<<"C18", "malformed operand accepted">>} ELSE {})
         ELSE IF ~OK THEN Refused("C12")
         ELSE LET f == [v \in {Ev.v[1]} |-> X(2).p[1]]
              IN  XTag(ConIs(Ev.res[1], ASubst(x.l, f), ASubst(x.rr, f), CShape(x), x.s, "C12"), "C12") \cup WfAll
    [] Ev.op = "csubstmap" ->
         LET ansl == AnsSubstMap(Den(x.l), SubMap)
             ansr == AnsSubstMap(Den(x.rr), SubMap)
         IN  IF MapMal \/ ansl.t = "inv" THEN (IF OK /\ ~CIdle(x) THEN {<<"C07", "invalid map accepted">>} ELSE {})
             ELSE IF MapIrr THEN {}
             ELSE IF ~OK THEN Refused("C12") \cup {<<"C07", "refused">>}
             ELSE LET cl == ConIs(Ev.res[1], ansl.v[1], ansr.v[1], CShape(x), x.s, "C12")
                  IN  XTag(cl, "C12") \cup (IF cl # {} THEN {<<"C07", "value">>} ELSE {}) \cup WfAll

\* linear representation: rows A, bounds b, order w, against the constraint (at
\* the points where the variables that are not in w are zero)
RepRows(x, A, b, w, sense) ==
  /\ Len(A) = CSize(x) /\ Len(b) = CSize(x)
  /\ \A k \in 1..CSize(x) :
       /\ Len(A[k]) = Len(w)
       /\ (\A j \in DOMAIN w : A[k][j][2] >= 0) /\ b[k][2] >= 0
       /\ LET d == FromTerms([j \in 1..(Len(w) + 1) |->
                      IF j <= Len(w) THEN <<EUnit(w[j]), A[k][j]>> ELSE <<EZero, DNeg(b[k])>>])
              e == CEntry(x, k)
          IN  SameEntry(PSubst(e[1], [v \in PVars(e[1]) \ {w[j] : j \in DOMAIN w} |-> PZero]), e[2], d, sense)

\* a necessary condition for being right for some order: coefficients, bounds
\* and senses agree up to a permutation of each row
RepRowsBag(x, A, b, sense) ==
  /\ Len(A) = CSize(x) /\ Len(b) = CSize(x)
  /\ \A k \in 1..CSize(x) :
       LET e == CEntry(x, k)
           n == Len(A[k])
           some == {j \in 1..n : A[k][j][1] # 0}
       IN  IF PVars(e[1]) = {} THEN some = {}
           ELSE LET u == CHOOSE v \in PVars(e[1]) : TRUE
                    c == PLinCoef(e[1], u)
                IN  \E j \in some :
                      LET a == A[k][j]
                          Like(v) == DMul(PLinCoef(e[1], v), a)
                      IN  /\ DMul(b[k], c) = DNeg(DMul(PConstTerm(e[1]), a))
                          /\ sense = (IF DSign(a) = DSign(c) THEN e[2] ELSE Flip(e[2]))
                          /\ Cardinality(some) = Cardinality(PVars(e[1]))
                          /\ \A v \in PVars(e[1]) :
                               Cardinality({w \in PVars(e[1]) : Like(w) = Like(v)}) = Cardinality({i \in some : DMul(A[k][i], c) = Like(v)})

\* sequences of n different elements of S
Orders(S, n) == {u \in [1..n -> S] : \A i, j \in 1..n : u[i] = u[j] => i = j}
RepClauses ==
  LET x == X(1)
      lin == \A k \in 1..CSize(x) : PDegree(AB(x.l, k)) <= 1 /\ PDegree(AB(x.rr, k)) <= 1
      sideslin == lin
      sense == IF Ev.op = "ineqrep" THEN "le" ELSE "eq"
      rightsense == IF Ev.op = "ineqrep" THEN x.s \in {"le", "ge"} ELSE x.s = "eq"
      vs == UNION {PVars(CEntry(x, k)[1]) : k \in 1..CSize(x)}
      given == Ev.n[1] = 1
      w0 == {Ev.v[i] : i \in DOMAIN Ev.v}
  IN  IF CMal(x) THEN {}
      ELSE IF AnyIrr THEN {}
      ELSE IF ~lin \/ ~rightsense THEN (IF OK THEN {<<"C13", "accepted">>} ELSE {})
      ELSE IF given /\ (~AllDistinct(Ev.v) \/ Len(Ev.v) = 0) THEN {}
      ELSE IF ~given /\ vs = {} THEN {}
      ELSE IF ~OK THEN (IF ~x.l.can \/ ~x.rr.can THEN {} ELSE {<<"C13", "refused">>})  \* of terms that cancel
      ELSE LET w == [i \in DOMAIN Ev.q[3] |-> Ev.q[3][i][1]]
               A == Ev.q[1]
               n == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
               Right(u) == RepRows(x, A, Ev.q[2], u, sense)
           IN  IF given
               THEN XTag(If(Right(w), <<"C13", "representation">>), "C13")
               \* without a list: right for some order of the variables
               ELSE XTag(If(\/ (AllDistinct(w) /\ Right(w))
                            \/ IF n > 6 THEN RepRowsBag(x, A, Ev.q[2], sense)
                               ELSE \E u \in Orders(AVars(x.l) \cup AVars(x.rr), n) : Right(u),
                            <<"C13", "representation">>), "C13")

ImpliesClauses ==
  LET x == X(1) y == X(2)
  IN  IF CMal(x) \/ CMal(y)
      THEN {}
      ELSE IF AnyIrr THEN {}
      ELSE IF ~OK THEN {<<"C14", "refused">>}
      ELSE LET dx == CEntries(x) dy == CEntries(y)
               sound == IF \A e \in dx \cup dy : LinIn1(e[1]) /\ PVars(e[1]) = PVars((CHOOSE z \in dx : TRUE)[1])
                        THEN \A e \in dy : \E f \in dx : BoundImplies(f[1], f[2], e[1], e[2]) \/ ~Refuted(dx, e[1], e[2])
                        ELSE \A e \in dy : ~Refuted(dx, e[1], e[2])
           IN  IF Ev.q = 1 THEN XTag(If(sound, <<"C14", "false implication">>), "C14")
               ELSE IF x.k = "S" /\ y.k = "S"
                    THEN LET e == CEntry(x, 1) f == CEntry(y, 1)
                         IN  IF SameVarBounds(e[1], f[1]) /\ x.l.can /\ x.rr.can /\ y.l.can /\ y.rr.can
                             THEN If(~BoundImplies(e[1], e[2], f[1], f[2]), <<"C14", "implication missed">>)
                             ELSE {}
                    ELSE {}

ConQueryClauses ==
  LET x == X(1) IN
  CASE Ev.op = "implies" -> ImpliesClauses
    [] Ev.op \in {"ineqrep", "eqrep"} -> RepClauses
    [] Ev.op = "csense" -> If(OK /\ Ev.q = x.s, <<"C11", "sense">>)
    [] CMal(x) -> {}
    [] Ev.op = "cdims" -> If(OK /\ Ev.q = CShape(x), <<"C11", "dims">>)
    [] Ev.op = "clen" -> If(OK /\ Ev.q = CSize(x), <<"C11", "len">>)
    [] AnyIrr -> {}
    [] Ev.op \in {"cvars", "cvarsfn"} ->
         IF ~OK THEN {<<"C09", "refused">>}
         ELSE VarListClauses(Ev.q, AVars(x.l) \cup AVars(x.rr), "C09", x.l.can /\ x.rr.can)
    [] Ev.op = "cislin" ->
         IF ~OK THEN {<<"C09", "refused">>}
         ELSE IF x.l.can /\ x.rr.can
              THEN If(Ev.q = Bool(ADegree(x.l) <= 1 /\ ADegree(x.rr) <= 1), <<"C09", "constraint is linear">>)
              ELSE {}
    [] Ev.op = "nonneg" ->
         IF ~OK THEN {<<"C15", "refused">>}
         ELSE LET e == CEntry(x, 1)
              IN  XTag(If(Ev.q = Bool(IsNonneg(e[1], e[2])), <<"C15", IF Ev.q = 1 THEN "falsely recognised" ELSE "not recognised">>), "C15")
    [] Ev.op = "cstr" ->
         IF vt.dupnames THEN {}
         ELSE IF ~OK THEN {<<"C20", "refused">>}
         ELSE If(Printed(Ev.q[1], x.l) /\ Printed(Ev.q[3], x.rr) /\ Ev.q[2] = x.s, <<"C20", "printed constraint">>)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Reasons: the error value a call is refused with (Ev.why: cause, numbers  *)
(* it holds, numbers of its text, kind it names) is true of the call, and   *)
(* each cause below is reported by its own error.                           *)

Why == Ev.why
Causes == {"dim", "vidx", "midx", "neg", "cols", "emptyv", "emptym", "nonlin", "noteq",
           "notineq", "novars", "nolist", "unsup"}

\* expressions a call is about: operands, the sides of constraints, the values of a map
Parts(xs) == FoldLeft(LAMBDA acc, x : acc \o (IF x.t = "c" THEN <<x.l, x.rr>> ELSE <<x>>), <<>>, xs)
AllParts == Parts(Xs) \o (IF Ev.op \in {"substmap", "csubstmap"} THEN SubMapVals ELSE <<>>)

IsSca(x) == x.k \in ScalarKinds \cup {"f64", "int"}
Conform(x, y) == ConformFor(Ev.op, x, y, IsSca(x), IsSca(y))
\* pairs that must conform
Partners ==
  LET ps == AllParts
  IN  IF Ev.op \in {"hstack", "vstack"} THEN {<<ps[i], ps[i + 1]>> : i \in 1..(Len(ps) - 1)}
      ELSE IF Ev.op \in {"plus", "minus", "minusfn", "mul", "cmp"} THEN {<<ps[1], ps[2]>>}
      ELSE {<<X(i).l, X(i).rr>> : i \in {j \in DOMAIN Ev.a : X(j).t = "c"}}

IndexOps == {"at", "atvec", "catvec", "cat"}
GivenIndex == IF Ev.op \in {"at", "cat"} THEN <<Ev.n[1], Ev.n[2]>> ELSE <<Ev.n[1], 0>>
IndexedShape == IF X(1).t = "c" THEN CShape(X(1)) ELSE <<X(1).r, X(1).c>>

RaggedTrue(n) ==
  IF Ev.op = "conv" /\ ~AnyMal
  THEN Ev.s = "getKMatrixR" /\ X(1).r > 1 /\ n = <<X(1).c, X(1).c + 1, X(1).r - 1>>
  ELSE \E i \in DOMAIN AllParts : RaggedAs(AllParts[i].ls, n)

RepLinear(x) == \A k \in 1..CSize(x) : PDegree(AB(x.l, k)) <= 1 /\ PDegree(AB(x.rr, k)) <= 1
RepSense(x) == IF Ev.op = "ineqrep" THEN x.s \in {"le", "ge"} ELSE x.s = "eq"
NoVars ==
  IF Ev.n[1] = 1 /\ Len(Ev.v) = 0 THEN TRUE
  ELSE IF Ev.op = "lincoef" THEN AVars(X(1)) = {} \/ ~X(1).can
  ELSE UNION {PVars(CEntry(X(1), k)[1]) : k \in 1..CSize(X(1))} = {} \/ ~X(1).l.can \/ ~X(1).rr.can

\* x may be passed on as a value of kind k: the form stays (a matrix with one
\* column may become a vector)
OfForm(x, k) ==
  \/ x.k = k
  \/ AIs1(x) /\ k \in ScalarKinds
  \/ x.c = 1 /\ ~IsSca(x) /\ k \in VectorKinds
  \/ x.k \in MatrixKinds \cup {"D", "pD"} /\ k \in MatrixKinds

\* the error is true of the call
TrueReason ==
  LET w == Why.w n == Why.n
  IN  CASE w = "dim" ->
             \/ \E p \in Partners : ~Conform(p[1], p[2]) /\ n = <<p[1].r, p[1].c, p[2].r, p[2].c>>
        [] w = "midx" ->
             /\ Ev.op \in IndexOps
             /\ n = GivenIndex \o IndexedShape /\ OutOfBounds(GivenIndex, IndexedShape)
        [] w = "vidx" ->
             /\ Ev.op \in IndexOps
             /\ n = <<GivenIndex[1]>> \o IndexedShape /\ OutOfBounds(GivenIndex, IndexedShape)
        [] w = "neg" -> Ev.op = "pow" /\ n = <<Ev.n[1]>> /\ Ev.n[1] < 0
        [] w = "cols" -> RaggedTrue(n)
        [] w = "emptyv" -> \E i \in DOMAIN AllParts : AllParts[i].k \in VectorKinds /\ AllParts[i].r = 0
        [] w = "emptym" -> \E i \in DOMAIN AllParts : AllParts[i].k \in MatrixKinds /\ (AllParts[i].r = 0 \/ AllParts[i].c = 0)
        [] w = "nonlin" -> Ev.op \in {"ineqrep", "eqrep"} /\ (~RepLinear(X(1)) \/ ~X(1).l.can \/ ~X(1).rr.can)
        [] w = "noteq" -> Ev.op = "eqrep" /\ X(1).s # "eq"
        [] w = "notineq" -> Ev.op = "ineqrep" /\ X(1).s = "eq"
        [] w = "novars" -> Ev.op \in {"lincoef", "ineqrep", "eqrep"} /\ NoVars
        [] w = "nolist" -> Ev.op \in {"lincoef", "ineqrep", "eqrep"} /\ NoVars
        [] w = "unsup" -> \E i \in DOMAIN AllParts : OfForm(AllParts[i], Why.k)
        [] OTHER -> TRUE

\* the errors that name the cause of a refusal; {}: any
Named ==
  CASE Ev.op \in {"plus", "minus", "minusfn", "mul", "cmp"} ->
         IF MayRefuse(Ev.op, K1, K2, Col) \/ Conform(X(1), X(2)) THEN {} ELSE {"dim"}
    [] Ev.op \in {"hstack", "vstack"} -> IF \A p \in Partners : Conform(p[1], p[2]) THEN {} ELSE {"dim"}
    [] Ev.op \in IndexOps -> IF OutOfBounds(GivenIndex, IndexedShape) THEN {"vidx", "midx"} ELSE {}
    [] Ev.op = "pow" -> IF Ev.n[1] < 0 /\ X(1).r = X(1).c THEN {"neg"} ELSE {}
    [] Ev.op \in {"ineqrep", "eqrep"} ->
         IF ~X(1).l.can \/ ~X(1).rr.can THEN {}
         ELSE (IF RepLinear(X(1)) THEN {} ELSE {"nonlin"})
              \cup (IF RepSense(X(1)) THEN {} ELSE {"noteq", "notineq"})
    [] Ev.op = "lincoef" ->
         IF X(1).can /\ ~QueryValid THEN {"novars", "nolist"} ELSE {}
    [] OTHER -> {}

ConMal == \E i \in DOMAIN Ev.a : X(i).t = "c" /\ CMal(X(i))
ConAmb == \E i \in DOMAIN Ev.a : X(i).t = "c" /\ CAmb(X(i))
Unusual == AnyMal \/ ConMal \/ ConAmb \/ (Ev.op \in {"substmap", "csubstmap"} /\ (MapMal \/ Ev.s = "badkey"))
Asks == Ev.op \in ExprOps \cup QueryOps \cup ConOps \cup ConQueries
ReasonClauses ==
  IF ~Asks \/ Ev.st = "hang" THEN {}
  ELSE (IF Why.w \notin Causes \/ (Unusual /\ Why.w \in {"dim", "vidx", "midx", "nonlin", "unsup", "novars", "nolist"}) THEN {}
        ELSE If(TrueReason, <<"C22", "untrue reason">>)
             \cup If(Why.t = <<>> \/ Why.t = Why.n, <<"C22", "untrue message">>))
       \cup (IF OK \/ Unusual \/ AnyIrr THEN {}
             ELSE LET nm == Named IN If(nm = {} \/ Why.w \in nm, <<"C22", "reason not named">>))

-----------------------------------------------------------------------------
(* Environments: Ev.envs is the content of all environments after the call *)

EnvOps == {"mkenv", "newvar", "newvec", "newmat", "track", "all", "envname"}
EnvIds(e) == {e[i][2] : i \in DOMAIN e}
\* kind and bounds codes of a new variable
NewKind(s) == IF s = "b" THEN <<2, 2>> ELSE <<1, 1>>
FreshIn(ei, v, s) ==       \* v is a fresh variable of environment ei (0: default)
  /\ v[1] = ei
  /\ v[2] >= 0 /\ v[2] \notin EnvIds(envs[ei + 1])
  /\ <<v[3], v[4]>> = NewKind(s)
SameTracked(e, f) == Len(e) = Len(f) /\ {e[i] : i \in DOMAIN e} = {f[i] : i \in DOMAIN f}

EnvClauses ==
  IF Ev.op = "envname" THEN If(OK /\ Ev.q = Ev.s, <<"C16", "name">>)
  ELSE IF ~OK THEN {<<"C16", "refused">>}
  ELSE LET ei == IF Ev.op = "mkenv" THEN Len(envs) ELSE Ev.n[1]
           old == IF Ev.op = "mkenv" THEN <<>> ELSE envs[ei + 1]
           new == Ev.envs[ei + 1]
           others == \A k \in DOMAIN envs : k # ei + 1 => Ev.envs[k] = envs[k]
           flat == CASE Ev.op = "newvar" -> Ev.q[1]
                     [] Ev.op = "newvec" -> Ev.q[1]
                     [] Ev.op = "newmat" -> FoldLeft(LAMBDA a, r : a \o r, <<>>, Ev.q[1])
                     [] OTHER -> <<>>
       IN  If(others, <<"C16", "another environment changed">>)
           \cup
           (CASE Ev.op = "mkenv" -> If(new = <<>>, <<"C16", "new environment not empty">>)
              [] Ev.op = "all" -> If(Ev.q = old /\ new = old, <<"C16", "listing">>)
              [] Ev.op = "track" ->
                   LET v == <<IF Len(Ev.n) > 2 THEN Ev.n[3] ELSE Ev.n[1], Ev.n[2],
                              IF Len(Ev.n) > 4 THEN Ev.n[4] ELSE 1, IF Len(Ev.n) > 4 THEN Ev.n[5] ELSE 3>>
                       fresh == Ev.n[2] \notin EnvIds(old)
                   IN  If(Ev.q[1] = Bool(fresh), <<"C16", "track answer">>)
                       \cup If(SameTracked(new, IF fresh THEN Append(old, v) ELSE old), <<"C16", "tracked set">>)
              [] OTHER ->
                   If(\A i \in DOMAIN flat : FreshIn(ei, flat[i], Ev.s), <<"C16", "not fresh">>)
                   \cup If(Cardinality({flat[i][2] : i \in DOMAIN flat}) = Len(flat), <<"C16", "identifiers coincide">>)
                   \cup If(CASE Ev.op = "newvar" -> Len(flat) = 1
                             [] Ev.op = "newvec" -> Len(flat) = Ev.n[2]
                             [] Ev.op = "newmat" -> Len(Ev.q[1]) = Ev.n[2] /\ \A i \in DOMAIN Ev.q[1] : Len(Ev.q[1][i]) = Ev.n[3],
                           <<"C16", "shape">>)
                   \cup If(SameTracked(new, old \o flat), <<"C16", "tracked set">>))

-----------------------------------------------------------------------------
(* Purity                                                                  *)

ChangedRegs == {Ev.chg[i].r : i \in DOMAIN Ev.chg}
PurityClauses ==
  IF Ev.op = "poke"
  THEN IF ChangedRegs \subseteq {Ev.a[1]} THEN {}
       ELSE {<<IF Ev.s = "conv" THEN "C19" ELSE "C01", "changed through a copy">>}
  ELSE (IF ChangedRegs # {} THEN {<<"C01", "operand changed">>} ELSE {})
       \cup (IF Ev.argch THEN {<<"C01", "argument changed">>} ELSE {})

-----------------------------------------------------------------------------
(* Calls made from several goroutines at once (event "par") answer as the  *)
(* specification says, whatever the others do.  An outcome such a call had *)
(* that differs from the one it has alone is an event of its own (par = 1). *)
ParClauses ==
  IF ~OK THEN {<<"C21", "calls at the same time fail">>}
  ELSE IF ChangedRegs # {} THEN {<<"C21", "operand changed">>, <<"C01", "operand changed">>} ELSE {}
Beside(cl) == {<<"C21", c[2]>> : c \in cl}

Alone ==
  IF Ev.op = "begin" THEN {}
  ELSE IF Ev.op = "par" THEN ParClauses
  ELSE PurityClauses \cup ReasonClauses \cup
       (CASE Ev.op = "mk" -> MkClauses
          [] Ev.op \in ExprOps -> ExprClauses \cup SameClauses
          [] Ev.op \in QueryOps -> QueryClauses
          [] Ev.op \in ConOps -> ConClauses
          [] Ev.op \in ConQueries -> ConQueryClauses
          [] Ev.op \in EnvOps -> EnvClauses
          [] OTHER -> {})
Clauses == IF Ev.par = 1 THEN Beside(Alone) ELSE Alone

\* the heap after the event: what was observed
Resync(h) ==
  IF Ev.par = 1 THEN h ELSE
  FoldLeft(LAMBDA acc, c : IF c.r = 0 THEN acc ELSE [acc EXCEPT ![c.r] = ToHeap(c.o)], h, Ev.chg)
  \o [i \in DOMAIN Ev.res |-> ToHeap(Ev.res[i])]

\* counters: 1 events, 2 calls answered, 3 calls refused, 4 events rejected
Count(i) == TLCSet(i, TLCGet(i) + 1)

Init ==
  /\ pos = 1 /\ heap = <<>> /\ envs = <<>>
  /\ vt = [xenv |-> FALSE, dupnames |-> FALSE, ids |-> <<>>]
  /\ TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0) /\ TLCSet(4, 0)

Begin ==
  /\ Ev.op = "begin"
  /\ heap' = <<>>
  /\ envs' = Ev.envs
  /\ vt' = [xenv |-> ~AllDistinct(Ev.ids), dupnames |-> ~AllDistinct(Ev.names), ids |-> Ev.ids]

Call ==
  /\ Ev.op # "begin"
  /\ heap' = Resync(heap)
  /\ envs' = IF Ev.op \in EnvOps THEN Ev.envs ELSE envs
  /\ UNCHANGED vt

Next ==
  /\ pos <= Len(Log)
  /\ LET cl == Clauses
     IN  /\ Count(1)
         /\ IF OK THEN Count(2) ELSE Count(3)
         /\ IF cl = {} THEN TRUE
            ELSE Count(4) /\ PrintT(<<"REJECT", Ev.p, Ev.i, Ev.op, cl>>)
  /\ (Begin \/ Call)
  /\ pos' = pos + 1

Spec == Init /\ [][Next]_vars

\* every line of the trace was consumed
Accepted ==
  /\ PrintT(<<"COUNTS", TLCGet(1), TLCGet(2), TLCGet(3), TLCGet(4)>>)
  /\ TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
