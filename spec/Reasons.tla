------------------------------ MODULE Reasons -------------------------------
(***************************************************************************)
(* When a request has no answer, and why: shapes that do not conform,      *)
(* indices out of bounds, rows of different lengths.  Used to judge the    *)
(* error values and messages of refusals (Trace.tla); that these are the   *)
(* very requests that have no answer is checked in Laws.tla ("reasons").   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* operand shapes x, y (records with r, c); sx, sy: taken as scalars
ConformFor(op, x, y, sx, sy) ==
  CASE op = "mul" -> x.c = y.r \/ sx \/ sy
    [] op = "hstack" -> x.r = y.r
    [] op = "vstack" -> x.c = y.c
    [] OTHER -> (x.r = y.r /\ x.c = y.c) \/ sx \/ sy

\* 0-based row and column against a shape <<rows, columns>>
OutOfBounds(i, sh) == i[1] < 0 \/ i[2] < 0 \/ i[1] >= sh[1] \/ i[2] >= sh[2]

\* rows of lengths ls; n: expected and actual columns, 0-based row
RaggedAs(ls, n) == n[3] + 1 \in DOMAIN ls /\ n[1] = ls[1] /\ n[2] = ls[n[3] + 1] /\ n[1] # n[2]
=============================================================================
