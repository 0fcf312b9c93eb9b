------------------------------ MODULE Dyadic -------------------------------
(***************************************************************************)
(* Dyadic numbers, exactly.                                                *)
(*                                                                         *)
(* TLC's integers have 32 bits, the numbers of the library 53 and a wide   *)
(* range of exponents.  A dyadic whose numerator is below Lim is the pair  *)
(* <<n, k>>; a larger one is <<s, k, l1, l2, ...>>: the sign and the       *)
(* numerator's digits in base Base, least significant first.  In both the  *)
(* numerator is odd unless k = 0, so equal numbers are equal values, and   *)
(* a[1] has the sign of a.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

\* (DyadicLaws.tla checks the arithmetic itself with smaller ones)
LimBits == 30
BaseBits == 12
Lim == 2^LimBits
Base == 2^BaseBits
Abs(n) == IF n < 0 THEN -n ELSE n

\* magnitudes: sequences of digits without leading (last) zeros
RECURSIVE MStrip(_)
MStrip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN MStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

RECURSIVE MOf(_)
MOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MOf(n \div Base)

MVal(m) == FoldRight(LAMBDA d, acc : acc * Base + d, m, 0)

\* digits in range from non-negative ones that need not be
MCarry(m) ==
  LET f == FoldLeft(LAMBDA acc, d : LET x == d + acc[2] IN <<Append(acc[1], x % Base), x \div Base>>, <<<<>>, 0>>, m)
  IN  MStrip(f[1] \o MOf(f[2]))

MDigit(m, i) == IF i \in 1..Len(m) THEN m[i] ELSE 0
MMax(i, j) == IF i > j THEN i ELSE j
MPlus(a, b) == MCarry(TLCEval([i \in 1..MMax(Len(a), Len(b)) |-> MDigit(a, i) + MDigit(b, i)]))
\* a >= b
MMinus(a, b) ==
  LET f == FoldLeft(LAMBDA acc, i : LET x == a[i] - MDigit(b, i) - acc[2]
                                    IN  IF x < 0 THEN <<Append(acc[1], x + Base), 1>> ELSE <<Append(acc[1], x), 0>>,
                    <<<<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN  MStrip(f[1])
RECURSIVE MLessFrom(_, _, _)
MLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE MLessFrom(a, b, i - 1)
MLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE MLessFrom(a, b, Len(a))
MTimes(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE MCarry(TLCEval([i \in 1..(Len(a) + Len(b)) |->
         FoldLeft(LAMBDA acc, j : acc + (IF i + 1 - j \in 1..Len(b) THEN a[j] * b[i + 1 - j] ELSE 0),
                  0, [j \in 1..Len(a) |-> j])]))
\* times 2^d
MShift(m, d) ==
  IF m = <<>> THEN m
  ELSE MCarry([i \in 1..(d \div BaseBits) |-> 0] \o TLCEval([i \in 1..Len(m) |-> m[i] * 2^(d % BaseBits)]))
\* number of trailing zero bits
RECURSIVE Trail(_)
Trail(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Trail(n \div 2)
RECURSIVE MTrail(_, _)
MTrail(m, i) == IF m[i] = 0 THEN BaseBits + MTrail(m, i + 1) ELSE Trail(m[i])
\* divided by 2^d, without remainder
MUnshift(m, d) ==
  LET r == SubSeq(m, d \div BaseBits + 1, Len(m))
      s == 2^(d % BaseBits)
  IN  MStrip([i \in 1..Len(r) |-> r[i] \div s + (MDigit(r, i + 1) % s) * (Base \div s)])

LimDigits == MOf(Lim)
\* the dyadic with sign s, numerator m and denominator 2^k
DMake(s, k, m) ==
  IF m = <<>> THEN <<0, 0>>
  ELSE LET t == MTrail(m, 1)
           d == IF t < k THEN t ELSE k
           n == TLCEval(IF d = 0 THEN m ELSE MUnshift(m, d))
       IN  IF MLess(n, LimDigits) THEN <<s * MVal(n), k - d>> ELSE <<s, k - d>> \o n

Digits(a) == IF Len(a) = 2 THEN MOf(Abs(a[1])) ELSE SubSeq(a, 3, Len(a))

RECURSIVE DNorm(_, _)
DNorm(n, k) ==
  IF k = 0 THEN <<n, 0>>
  ELSE IF n = 0 THEN <<0, 0>>
  ELSE IF n % 2 = 0 THEN DNorm(n \div 2, k - 1)
  ELSE <<n, k>>

DZero == <<0, 0>>
DOne  == <<1, 0>>
DInt(n) == <<n, 0>>
DSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

\* n * 2^d stays below Lim
ShiftFits(n, d) == d < LimBits /\ Abs(n) < 2^(LimBits - d)

\* a + b by digits
DAddLong(a, b) ==
  LET k == MMax(a[2], b[2])
      x == TLCEval(MShift(Digits(a), k - a[2]))
      y == TLCEval(MShift(Digits(b), k - b[2]))
      s == DSign(a) t == DSign(b)
  IN  IF s = t THEN DMake(s, k, MPlus(x, y))
      ELSE IF MLess(x, y) THEN DMake(t, k, MMinus(y, x)) ELSE DMake(s, k, MMinus(x, y))

DAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF Len(a) > 2 \/ Len(b) > 2 THEN DAddLong(a, b)
  ELSE LET k == MMax(a[2], b[2])
       IN  IF ~ShiftFits(a[1], k - a[2]) \/ ~ShiftFits(b[1], k - b[2]) THEN DAddLong(a, b)
           ELSE LET n == a[1] * 2^(k - a[2]) + b[1] * 2^(k - b[2])
                IN  IF n >= Lim \/ n <= -Lim THEN DAddLong(a, b) ELSE DNorm(n, k)

DMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN DZero
  ELSE IF Len(a) = 2 /\ Len(b) = 2 /\ Abs(a[1]) <= (Lim - 1) \div Abs(b[1])
       THEN DNorm(a[1] * b[1], a[2] + b[2])
       ELSE DMake(DSign(a) * DSign(b), a[2] + b[2], MTimes(Digits(a), Digits(b)))

DNeg(a) == [a EXCEPT ![1] = -@]
DSub(a, b) == DAdd(a, DNeg(b))
DLe(a, b) == DSub(a, b)[1] <= 0
DLt(a, b) == DSub(a, b)[1] < 0

RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN DOne ELSE DMul(a, DPow(a, n - 1))
=============================================================================
