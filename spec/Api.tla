-------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* What a call of the library must answer, as a function of the operands'  *)
(* denotations.  An answer is one of                                       *)
(*    Vals(<<a1, ..>>)    the call returns values denoting exactly these   *)
(*    Invalid             the request is meaningless and must be refused   *)
(*    Free                not specified                                    *)
(* The same operators drive the design model (SymbolicMath.tla), the       *)
(* behaviours generated from it (Gen.tla) and the validation of traces     *)
(* recorded from the implementation (Trace.tla).                           *)
(***************************************************************************)
EXTENDS Constraints

Vals(vs) == [t |-> "val", v |-> vs]
Val(a) == Vals(<<a>>)
Invalid == [t |-> "inv", v |-> <<>>]
Free == [t |-> "free", v |-> <<>>]

\* --------------------------------------------------------------- arithmetic
AnsPlus(a, b) == IF ASumOk(a, b) THEN Val(AAdd(a, b)) ELSE Invalid
AnsMinus(a, b) == IF ASumOk(a, b) THEN Val(ASub(a, b)) ELSE Invalid
AnsMul(a, b) == IF AMulOk(a, b) THEN Val(AMul(a, b)) ELSE Invalid
AnsPow(a, n) == IF a.r # a.c \/ n < 0 THEN Invalid ELSE Val(APow(a, n))
AnsTranspose(a) == Val(ATranspose(a))

\* ------------------------------------------------- calculus, substitution
AnsDeriv(a, v) == Val(ADeriv(a, v))
AnsSubst(a, v, e) == Val(ASubst(a, [x \in {v} |-> e.p[1]]))
\* m: sequence of <<variable, value>>, each variable once
AnsSubstMap(a, m) ==
  IF \E i \in DOMAIN m : ~AIs1(m[i][2]) THEN Invalid
  ELSE Val(ASubst(a, [x \in {m[i][1] : i \in DOMAIN m} |->
                        LET i == CHOOSE j \in DOMAIN m : m[j][1] = x IN m[i][2].p[1]]))

\* ------------------------------------------------------ entries, placement
\* indices are 0-based, as in the library
AnsAt(a, i, j) ==
  IF i < 0 \/ j < 0 \/ i >= a.r \/ j >= a.c THEN Invalid
  ELSE Val(Sca(AEnt(a, i + 1, j + 1)))
AnsAtVec(a, i) == IF i < 0 \/ i >= a.r THEN Invalid ELSE Val(Sca(AEnt(a, i + 1, 1)))
AnsHStack(as) == IF AHOk(as) THEN Val(AHStack(as)) ELSE Invalid
AnsVStack(as) == IF AVOk(as) THEN Val(AVStack(as)) ELSE Invalid
AnsVector(ps) == IF Len(ps) = 0 THEN Invalid ELSE Val(Arr(Len(ps), 1, ps))
\* lens: row lengths; ps: entries row by row
AnsMatrix(lens, ps) ==
  IF Len(lens) = 0 \/ (\E i \in DOMAIN lens : lens[i] # lens[1]) \/ lens[1] = 0 THEN Invalid
  ELSE Val(Arr(Len(lens), lens[1], ps))
AnsScalars(a) == Vals([k \in 1..Len(a.p) |-> Sca(a.p[k])])
AnsSame(a) == Val(a)
=============================================================================
