------------------------------- MODULE DyadicLaws -------------------------------
(***************************************************************************)
(* Checks Dyadic.tla: with Lim and Base lowered, numbers that TLC can      *)
(* still compute with directly take the way by digits, and the two must    *)
(* agree; with the real ones, the laws of arithmetic are checked on        *)
(* numbers TLC cannot compute with.                                        *)
(***************************************************************************)
EXTENDS Dyadic

CONSTANTS NMax, KMax, What

SmallLimBits == 3
SmallBaseBits == 2

\* the normal form of n / 2^k computed on integers alone
RECURSIVE Low(_, _)
Low(n, k) == IF n = 0 THEN <<0, 0>> ELSE IF k > 0 /\ n % 2 = 0 THEN Low(n \div 2, k - 1) ELSE <<n, k>>
Mk(n, k) ==
  LET q == Low(n, k)
  IN  IF Abs(q[1]) < Lim THEN q ELSE <<IF n < 0 THEN -1 ELSE 1, q[2]>> \o MOf(Abs(q[1]))

\* numbers beyond TLC's
Long(n, m, k) == DMul(DMul(DInt(n), DInt(m)), IF k >= 0 THEN <<1, k>> ELSE DPow(DInt(2), -k))
Ns == {-1, 1, 3, 4097, 16777217, -536870911, 1073741823}
Longs == {DAdd(Long(n, m, k), DInt(j)) : n \in Ns, m \in {1, -4095, 1073741789}, k \in {0, 41, -40}, j \in {0, 5}}

Smalls == {<<n, k>> : n \in -NMax..NMax, k \in 0..KMax}
Nums == IF What = "small" THEN Smalls ELSE Longs
Thirds == IF What = "small" THEN {DZero} ELSE {DZero, <<7, 3>>, Long(3, 1073741789, -33)}

VARIABLES a, b, c, picked
Init == a \in Nums /\ b = DZero /\ c = DZero /\ picked = FALSE
Next == ~picked /\ picked' = TRUE /\ a' = a /\ b' \in Nums /\ c' \in Thirds
Spec == Init /\ [][Next]_<<a, b, c, picked>>

Agree ==
  LET x == Mk(a[1], a[2]) y == Mk(b[1], b[2])
      k == MMax(a[2], b[2])
      p == a[1] * 2^(k - a[2]) q == b[1] * 2^(k - b[2])
  IN  /\ DAdd(x, y) = Mk(p + q, k)
      /\ DSub(x, y) = Mk(p - q, k)
      /\ DMul(x, y) = Mk(a[1] * b[1], a[2] + b[2])
      /\ DLt(x, y) = (p < q)
      /\ DLe(x, y) = (p <= q)
      /\ DSign(x) = (IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0)

Normal(x) ==
  IF Len(x) = 2 THEN Abs(x[1]) < Lim /\ (x[2] = 0 \/ x[1] % 2 = 1)
  ELSE /\ x[1] \in {-1, 1} /\ x[Len(x)] # 0 /\ \A i \in 3..Len(x) : x[i] \in 0..(Base - 1)
       /\ (x[2] = 0 \/ x[3] % 2 = 1)
       /\ ~MLess(SubSeq(x, 3, Len(x)), LimDigits)
Laws ==
  /\ Normal(a) /\ Normal(DAdd(a, b)) /\ Normal(DMul(a, b))
  /\ DAdd(a, b) = DAdd(b, a)
  /\ DMul(a, b) = DMul(b, a)
  /\ DAdd(DAdd(a, b), c) = DAdd(a, DAdd(b, c))
  /\ DMul(DMul(a, b), c) = DMul(a, DMul(b, c))
  /\ DMul(a, DAdd(b, c)) = DAdd(DMul(a, b), DMul(a, c))
  /\ DSub(DAdd(a, b), b) = a
  /\ DSub(a, a) = DZero
  /\ (DLt(a, b) <=> ~DLe(b, a))
  /\ (DLt(a, b) => DLt(DAdd(a, c), DAdd(b, c)))
  /\ (DSign(a) = 1 /\ DSign(b) = 1 => DSign(DMul(a, b)) = 1 /\ DLt(a, DAdd(a, b)))
=============================================================================
