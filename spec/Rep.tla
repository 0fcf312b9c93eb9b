--------------------------------- MODULE Rep --------------------------------
(***************************************************************************)
(* Values that are lists kept in storage: a value is a window into an      *)
(* array with spare capacity (as a Go slice).  Calls that build their      *)
(* result in fresh storage keep every value as it was; each way of saving  *)
(* the copy (Defects) leaves older values alone in many histories, and     *)
(* changes them in some, which is why the trace checks compare every value *)
(* held after every call, over chains of calls and operands with spare     *)
(* capacity.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Steps, Defects      \* subset of {"append", "delete", "write", "tail"}
VARIABLES mem,      \* storage: sequence of arrays (sequences of their capacity)
          held,     \* values: [a |-> array, n |-> length]
          saw       \* what each value was when the caller got it
vars == <<mem, held, saw>>

Read(h) == SubSeq(mem[h.a], 1, h.n)
Grow(n) == IF n <= 1 THEN 2 ELSE 2 * n
Pad(s, cap) == s \o [i \in 1..(cap - Len(s)) |-> 0]

\* a result in fresh storage, with or without spare capacity
Fresh(s) == \E cap \in {Len(s), Grow(Len(s))} :
  /\ mem' = Append(mem, Pad(s, cap))
  /\ held' = Append(held, [a |-> Len(mem) + 1, n |-> Len(s)])
  /\ saw' = Append(saw, s)
InPlace(h, arr, s) ==
  /\ mem' = [mem EXCEPT ![h.a] = arr]
  /\ held' = Append(held, [a |-> h.a, n |-> Len(s)])
  /\ saw' = Append(saw, s)

\* a term is added
Add(h, t) ==
  LET s == Read(h) IN
  IF "append" \in Defects /\ h.n < Len(mem[h.a])
  THEN InPlace(h, [mem[h.a] EXCEPT ![h.n + 1] = t], Append(s, t))
  ELSE Fresh(Append(s, t))
\* term i is removed
Del(h, i) ==
  LET s == Read(h)
      u == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
  IN IF "delete" \in Defects THEN InPlace(h, [k \in DOMAIN mem[h.a] |-> IF k < Len(s) THEN u[k] ELSE mem[h.a][k]], u)
     ELSE IF "tail" \in Defects /\ i = Len(s) THEN InPlace(h, mem[h.a], u)     \* shared prefix: harmless alone
     ELSE Fresh(u)
\* the coefficient of term i is changed
Set(h, i, t) ==
  LET s == [Read(h) EXCEPT ![i] = t]
  IN IF "write" \in Defects THEN InPlace(h, [mem[h.a] EXCEPT ![i] = t], s) ELSE Fresh(s)

Init == mem = << <<1, 2>>, <<3, 0>> >> /\ held = <<[a |-> 1, n |-> 2], [a |-> 2, n |-> 1]>> /\ saw = << <<1, 2>>, <<3>> >>
Next ==
  /\ Len(held) < 2 + Steps
  /\ \E k \in DOMAIN held :
       LET h == held[k] IN
       \/ \E t \in {4, 5} : Add(h, t)
       \/ \E i \in 1..h.n : Del(h, i)
       \/ \E i \in 1..h.n, t \in {4, 5} : Set(h, i, t)
Spec == Init /\ [][Next]_vars

\* C01
Kept == \A k \in DOMAIN held : Read(held[k]) = saw[k]
=============================================================================
