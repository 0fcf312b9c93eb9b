--------------------------------- MODULE Conc -------------------------------
(***************************************************************************)
(* Calls made from several goroutines on shared values, step by step: a    *)
(* call reads the entries of its operand one after the other, collects its *)
(* result and returns it.  Without Defects every answer is the answer the  *)
(* call has alone, whatever the interleaving.  The defects are ways of     *)
(* computing the same that no sequence of calls can tell apart, because    *)
(* every call leaves everything as it found it:                            *)
(*    "scratch"  the result is collected in storage shared by all calls    *)
(*    "borrow"   the operand is rearranged during the call and put back    *)
(*    "cache"    results are kept and found again, entry by entry          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Calls, Defect
VARIABLES mem,       \* operands: sequences of numbers
          pc, op, i, acc, did, answers, scratch, cache
vars == <<mem, pc, op, i, acc, did, answers, scratch, cache>>

Operands == << <<3, 1>>, <<2, 5>> >>
F(s) == [k \in DOMAIN s |-> 10 * s[k] + k]       \* depends on the order of the entries

Init ==
  /\ mem = Operands
  /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> 1] /\ i = [p \in Procs |-> 1]
  /\ acc = [p \in Procs |-> <<>>] /\ did = [p \in Procs |-> 0]
  /\ answers = {} /\ scratch = <<>> /\ cache = [k \in DOMAIN Operands |-> <<FALSE, <<>>>>]

Begin(p) ==
  /\ pc[p] = "idle" /\ did[p] < Calls
  /\ \E k \in DOMAIN Operands :
       /\ op' = [op EXCEPT ![p] = k]
       /\ IF Defect = "cache" /\ cache[k][1]
          THEN /\ acc' = [acc EXCEPT ![p] = cache[k][2]] /\ pc' = [pc EXCEPT ![p] = "return"]
               /\ UNCHANGED <<mem, scratch, cache>>
          ELSE /\ pc' = [pc EXCEPT ![p] = "read"]
               /\ acc' = [acc EXCEPT ![p] = <<>>]
               /\ scratch' = IF Defect = "scratch" THEN <<>> ELSE scratch
               /\ mem' = IF Defect = "borrow" THEN [mem EXCEPT ![k] = <<@[2], @[1]>>] ELSE mem
               /\ cache' = IF Defect = "cache" THEN [cache EXCEPT ![k] = <<TRUE, <<>>>>] ELSE cache
  /\ i' = [i EXCEPT ![p] = 1]
  /\ UNCHANGED <<did, answers>>

\* under "borrow" the entries are read in the new order and put back in their places
Entry(p) == LET s == mem[op[p]] IN IF Defect = "borrow" THEN s[3 - i[p]] ELSE s[i[p]]
Read(p) ==
  /\ pc[p] = "read" /\ i[p] <= 2
  /\ LET v == 10 * Entry(p) + i[p] IN
     /\ IF Defect = "scratch" THEN scratch' = Append(scratch, v) /\ UNCHANGED acc
        ELSE acc' = [acc EXCEPT ![p] = Append(@, v)] /\ UNCHANGED scratch
     /\ cache' = IF Defect = "cache" THEN [cache EXCEPT ![op[p]] = <<TRUE, Append(acc[p], v)>>] ELSE cache
  /\ i' = [i EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<mem, pc, op, did, answers>>
Finish(p) ==
  /\ pc[p] = "read" /\ i[p] = 3
  /\ pc' = [pc EXCEPT ![p] = "return"]
  /\ acc' = IF Defect = "scratch" THEN [acc EXCEPT ![p] = scratch] ELSE acc
  /\ mem' = IF Defect = "borrow" THEN [mem EXCEPT ![op[p]] = <<@[2], @[1]>>] ELSE mem
  /\ UNCHANGED <<op, i, did, answers, scratch, cache>>
Return(p) ==
  /\ pc[p] = "return"
  /\ answers' = answers \cup {<<op[p], acc[p]>>}
  /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ did' = [did EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<mem, op, i, acc, scratch, cache>>

Next == \E p \in Procs : Begin(p) \/ Read(p) \/ Finish(p) \/ Return(p)
Spec == Init /\ [][Next]_vars

\* C21
AsAlone == \A a \in answers : a[2] = F(Operands[a[1]])
\* C01, as seen between calls
Kept == (\A p \in Procs : pc[p] \in {"idle", "return"}) => mem = Operands
=============================================================================
