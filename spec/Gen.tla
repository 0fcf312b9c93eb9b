--------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of SymbolicMath.tla, generated by TLC in simulation mode and *)
(* written as programs that the driver replays on the library.  Operands   *)
(* and arguments are picked at random; the model computes every result, so *)
(* that a program goes on from values the specification knows to be of     *)
(* moderate size.  After Steps calls the program is written to GEN_OUT and *)
(* a new one begins.                                                       *)
(***************************************************************************)
EXTENDS SymbolicMath, Json, IOUtils

CONSTANTS Makes,      \* literals at the start of a program
          Focus       \* "all": everything; "con": mostly linear constraints; "expr": expressions only

VARIABLE made         \* literals made in this program
gvars == <<heap, prog, refused, made>>

PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
NoGhost == FALSE
GTracked == 1..5
GKeyPairs == {q \in (1..4) \X (1..4) : q[1] # q[2]}
\* mostly operands that fit
Fits(op, a, b) ==
  CASE op \in {"plus", "minus"} -> ASumOk(a, b)
    [] op = "mul" -> AMulOk(a, b)
    [] op = "hstack" -> a.r = b.r
    [] op = "vstack" -> a.c = b.c
    [] OTHER -> TRUE
GMates(op, i) == IF RandomElement(1..5) = 1 THEN DOMAIN heap ELSE {j \in Exprs : Fits(op, D(i), D(j))}
GReplacements == IF RandomElement(1..8) = 1 THEN DOMAIN heap ELSE Scals

Rnd(S) == RandomElement(S)

-----------------------------------------------------------------------------
(* Random literals: variables 1..7 of the program's table *)

Coefs == { <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<-3, 0>>, <<5, 0>>, <<1, 1>>, <<-3, 1>>, <<7, 2>> }
\* RandomElement is evaluated wherever it is used; binding the choice by a
\* quantifier or a function over a singleton evaluates it once
One(S) == TLCEval(RandomElement(S))
TermAt(vs, c) == <<TLCEval([v \in Slots |-> Cardinality({i \in DOMAIN vs : vs[i] = v})]), c>>
RVars(n) == TLCEval([i \in 1..n |-> Rnd(IF Rnd(1..4) = 1 THEN 1..7 ELSE 1..3)])
RTerm(deg) == TermAt(RVars(One(0..deg)), One(Coefs))
RTerms(n, deg) == TLCEval([i \in 1..n |-> TLCEval(RTerm(deg))])
RPoly(kind) ==
  CASE kind = "K" -> PConst(One({<<0, 0>>} \cup Coefs))
    [] kind = "Var" -> PVar(One(1..(IF Rnd(1..4) = 1 THEN 7 ELSE 3)))
    [] kind = "Mon" -> FromTerms(RTerms(1, 3))
    [] kind = "Lin" -> FromTerms(RTerms(One(1..3), 1))
    [] OTHER -> FromTerms(RTerms(One(1..4), 3))

\* a polynomial as a list of terms, in any order
TermList(p) ==
  IF DOMAIN p = {} THEN << [c |-> <<0, 0>>, f |-> <<>>] >>
  ELSE LET es == SetToSeq(DOMAIN p)
       IN  [i \in DOMAIN es |->
             [c |-> p[es[i]], f |-> SelectSeq([v \in Slots |-> <<v, es[i][v]>>], LAMBDA q : q[2] > 0)]]

Shapes == << <<1, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<2, 2>>, <<1, 2>>, <<2, 3>>, <<3, 2>>, <<1, 3>>, <<3, 3>>, <<1, 1>>, <<2, 1>>, <<2, 2>> >>
KindOf(entry, vec, mat) ==
  CASE entry = "K" -> IF mat THEN "KM" ELSE IF vec THEN "KV" ELSE "K"
    [] entry = "Var" -> IF mat THEN "VM" ELSE IF vec THEN "VV" ELSE "Var"
    [] entry = "Mon" -> IF mat THEN "MM" ELSE IF vec THEN "MV" ELSE "Mon"
    [] OTHER -> IF mat THEN "PM" ELSE IF vec THEN "PV" ELSE "Pol"

Make ==
  \E s \in {Rnd(1..Len(Shapes))} :
  \E r \in {Shapes[s][1]} : \E c \in {Shapes[s][2]} :
  \E entry \in {Rnd(IF Focus = "con" /\ Rnd(1..8) # 1 THEN {"K", "Var", "Lin"} ELSE {"K", "Var", "Mon", "Lin", "Pol"})} :
  \E mat \in {c > 1 \/ (r > 1 /\ Rnd(1..4) = 1)} :
  \E ps \in {[k \in 1..(r * c) |-> TLCEval(RPoly(entry))]} :
      /\ heap' = Append(heap, E(Arr(r, c, ps), <<>>))
      /\ prog' = Append(prog, [op |-> "mk", o |-> Len(heap) + 1,
                   mk |-> [k |-> KindOf(entry, r > 1, mat), r |-> r, c |-> c, e |-> [k \in DOMAIN ps |-> TermList(ps[k])],
                           bad |-> "", at |-> 0, cap |-> Rnd(0..1)]])
      /\ made' = made + 1
      /\ UNCHANGED refused

-----------------------------------------------------------------------------
(* Questions: they change nothing and come along with the calls *)

Ask ==
  \E i \in {Rnd(IF Constrs # {} /\ Focus = "con" /\ Rnd(1..4) > 1 THEN Constrs ELSE DOMAIN heap)} :
  \E e \in {heap[i].t = "e"} :
  \E q \in {IF e THEN Rnd({"degree", "vars", "const", "islin", "isquad", "isconst", "iszero", "check", "dims", "str", "numvars", "varids", "simp", "lincoef", "again"})
           ELSE Rnd({"csense", "cvars", "cislin", "clen", "left", "right", "csimplify", "cstr", "check", "ineqrep", "eqrep", "implies", "nonneg"})} :
  \E w \in {Rnd({<<1, 2, 3>>, <<7, 6, 5, 4, 3, 2, 1>>, <<3, 1>>, <<2, 4, 1, 3, 5, 6, 7>>})} :
      /\ prog' = Append(prog,
            CASE q = "lincoef" -> [op |-> q, a |-> <<i>>, n |-> <<1>>, v |-> w]
              [] q \in {"ineqrep", "eqrep"} -> [op |-> q, a |-> <<i>>, n |-> <<1>>, v |-> w]
              [] q = "implies" -> [op |-> q, a |-> <<i, Rnd(Constrs)>>]
              [] q = "again" -> IF prog # <<>> /\ prog[Len(prog)].op \in {"plus", "minus", "mul", "pow", "tr", "deriv", "subst"} /\ "o" \in DOMAIN prog[Len(prog)]
                                THEN [prog[Len(prog)] EXCEPT !.o = 0] @@ [same |-> prog[Len(prog)].o]
                                ELSE [op |-> "dims", a |-> <<i>>]
              [] OTHER -> [op |-> q, a |-> <<i>>])
      /\ UNCHANGED <<heap, refused, made>>

-----------------------------------------------------------------------------

V(env, id, kind, name) == [env |-> env, id |-> id, kind |-> kind, name |-> name, b |-> 0]
Tables ==
  { << V(1, 0, "c", "x_1"), V(1, 1, "c", "x_2"), V(1, 2, "c", "x_12"), V(1, 5, "b", "b_5"), V(1, 12, "i", "y"), V(1, 21, "c", "x_121"), V(1, 3, "c", "z") >>,
    << V(1, 0, "c", "x_0"), V(2, 0, "c", "u"), V(1, 1, "c", "x_1"), V(2, 1, "b", "w"), V(-1, 0, "c", "x_0d"), V(-1, 1, "i", "t"), V(1, 2, "c", "z") >> }

Write ==
  /\ Len(prog) >= Steps
  /\ Serialize(ToJson([p |-> TLCGet("level"), fam |-> "gen", nenv |-> 2, vars |-> Rnd(Tables), steps |-> prog]) \o "\n",
               IOEnv.GEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
  /\ heap' = <<>> /\ prog' = <<>> /\ refused' = 0 /\ made' = 0

ConCalls == {"cassimp", "cscale", "csubst", "cat", "compile"}
GInit == heap = <<>> /\ prog = <<>> /\ refused = 0 /\ made = 0
GNext ==
  IF made < Makes THEN Make
  ELSE IF Len(prog) >= Steps THEN Write
  ELSE \E k \in {Rnd(1..10)} :
           IF k <= 3 THEN Ask
           ELSE \/ \E op \in {Rnd(IF Constrs # {} /\ Rnd(1..10) <= (CASE Focus = "con" -> 6 [] Focus = "all" -> 3 [] OTHER -> 0) THEN Ops \cap ConCalls
                               ELSE IF Focus = "con" /\ Rnd(1..2) = 1 THEN {"cmp"}
                               ELSE Ops \ (IF Focus = "expr" THEN ConCalls \cup {"cmp"} ELSE ConCalls))} : Do(op) /\ UNCHANGED made
                \/ Ask
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
