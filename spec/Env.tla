--------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* Environments: several lists of tracked variables, created and tracked   *)
(* in any interleaving.  The specification allows any identifier that no   *)
(* tracked variable has (Policy "any"); "max" (one above the largest) is   *)
(* how the library chooses, and refines it; "count" (the number of tracked *)
(* variables) looks just as good in every history without tracking of      *)
(* chosen identifiers, and does not ("last" neither).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NEnv, MaxId, MaxLen, Policy
VARIABLES tracked,    \* [environment -> sequence of identifiers]
          last,       \* identifiers returned by the last call that created variables
          answer      \* answer of the last call that tracked
vars == <<tracked, last, answer>>

Envs == 1..NEnv
Ids(e) == {tracked[e][i] : i \in DOMAIN tracked[e]}
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m

\* identifiers the policy may choose when the list holds s
Choice(s) ==
  LET S == {s[i] : i \in DOMAIN s} IN
  CASE Policy = "any" -> (0..MaxId) \ S
    [] Policy = "max" -> {IF S = {} THEN 0 ELSE MaxOf(S) + 1}
    [] Policy = "count" -> {Len(s)}
    [] Policy = "last" -> {IF s = <<>> THEN 0 ELSE s[Len(s)] + 1}

\* tracking an identifier that is there changes nothing
Push(s, id) == IF \E i \in DOMAIN s : s[i] = id THEN s ELSE Append(s, id)

\* n new variables, one after the other
RECURSIVE Fill(_, _, _)
Fill(s, new, n) == IF n = 0 THEN {<<s, new>>} ELSE UNION {Fill(Push(s, id), Append(new, id), n - 1) : id \in Choice(s)}

New(e, n) ==
  \E q \in Fill(tracked[e], <<>>, n) :
    /\ tracked' = [tracked EXCEPT ![e] = q[1]]
    /\ last' = [e |-> e, ids |-> q[2], before |-> Ids(e)]
    /\ UNCHANGED answer
Track(e, id) ==
  /\ tracked' = [tracked EXCEPT ![e] = Push(@, id)]
  /\ answer' = [e |-> e, id |-> id, added |-> Len(tracked'[e]) > Len(tracked[e]), was |-> id \in Ids(e)]
  /\ UNCHANGED last

Init == tracked = [e \in Envs |-> <<>>] /\ last = [e |-> 1, ids |-> <<>>, before |-> {}] /\ answer = [e |-> 1, id |-> 0, added |-> FALSE, was |-> FALSE]
Next == \E e \in Envs : Len(tracked[e]) < MaxLen /\ (\/ \E n \in 1..2 : New(e, n)
                                                    \/ \E id \in 0..MaxId : Track(e, id))
Spec == Init /\ [][Next]_vars

\* C16
Once == \A e \in Envs : Cardinality(Ids(e)) = Len(tracked[e])
Fresh == /\ \A i \in DOMAIN last.ids : last.ids[i] \notin last.before
         /\ Cardinality({last.ids[i] : i \in DOMAIN last.ids}) = Len(last.ids)
Tracked == \A i \in DOMAIN last.ids : last.ids[i] \in Ids(last.e)
Told == answer.added = ~answer.was \/ (~answer.added /\ ~answer.was /\ answer.id = 0)   \* initially
Separate == [][Cardinality({e \in Envs : tracked'[e] # tracked[e]}) <= 1]_vars
Grows == [][\A e \in Envs : Len(tracked'[e]) >= Len(tracked[e]) /\ SubSeq(tracked'[e], 1, Len(tracked[e])) = tracked[e]]_vars
=============================================================================
