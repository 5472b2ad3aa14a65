------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: sequences of limbs in base
   2^12, least significant first, no leading zero limb (0 is <<>>).         *)
EXTENDS Integers, Sequences, TLC
BASE == 4096
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Canon(a) == (a = <<>> \/ a[Len(a)] # 0) /\ \A i \in 1..Len(a) : a[i] \in 0..BASE - 1
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET s == At(a, i) + At(b, i) + c IN <<s % BASE>> \o AddC(a, b, i + 1, s \div BASE)
BAdd(a, b) == AddC(a, b, 1, 0)
RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==              \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == At(a, i) - At(b, i) - c IN <<s % BASE>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
BSub(a, b) == Trim(SubC(a, b, 1, 0))
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1) ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
\* column k of the product; at most 60 limbs keep it below 2^31
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > Len(a) THEN 0
  ELSE (IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN a[i] * b[k - i + 1] ELSE 0) + Col(a, b, k, i + 1)
RECURSIVE MulK(_, _, _, _)
MulK(a, b, k, c) ==
  IF k > Len(a) + Len(b) THEN IF c = 0 THEN <<>> ELSE <<c % BASE>> \o (IF c >= BASE THEN <<c \div BASE>> ELSE <<>>)
  ELSE LET s == Col(a, b, k, 1) + c IN <<s % BASE>> \o MulK(a, b, k + 1, s \div BASE)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulK(a, b, 1, 0))
(* r is a*b mod m: the witness q is any number for which this holds *)
MulModIs(a, b, m, q, r) == BLt(r, m) /\ BAdd(BMul(q, m), r) = BMul(a, b)
ModIs(a, m, q, r) == BLt(r, m) /\ BAdd(BMul(q, m), r) = a
One == <<1>>
(* b^e mod m by the listed steps: bits of e from the most significant one,
   each step <<q1, r1, q2, r2>>: r1 = acc^2 mod m, r2 = r1*b mod m if the bit is set *)
RECURSIVE PowSteps(_, _, _, _, _, _)
PowSteps(b, m, bits, w, i, acc) ==
  IF i > Len(bits) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF ~MulModIs(acc, acc, m, w[i][1], w[i][2]) THEN [ok |-> FALSE, v |-> acc]
  ELSE IF bits[i] = 0 THEN PowSteps(b, m, bits, w, i + 1, w[i][2])
  ELSE IF ~MulModIs(w[i][2], b, m, w[i][3], w[i][4]) THEN [ok |-> FALSE, v |-> acc]
  ELSE PowSteps(b, m, bits, w, i + 1, w[i][4])
RECURSIVE OfBits(_, _, _)
OfBits(bits, i, acc) == IF i > Len(bits) THEN acc ELSE OfBits(bits, i + 1, BAdd(BAdd(acc, acc), IF bits[i] = 1 THEN One ELSE <<>>))
(* p = [b, m, e, bits, w]; value of b^e mod m, or rejection *)
PowIs(p, r) == /\ OfBits(p.bits, 1, <<>>) = p.e
               /\ LET x == PowSteps(p.b, p.m, p.bits, p.w, 1, One) IN x.ok /\ x.v = r
=============================================================================
