-------------------------------- MODULE Flt --------------------------------
(* Non-negative numbers m * 4096^e with m a BigNat of at most P limbs: every
   operation truncates, so that a result is short of the exact value by less
   than one part in 2^45.                                                   *)
EXTENDS BigNat
P == 5
FZero == [m |-> <<>>, e |-> 0]
FNorm(m, e) == LET x == TLCEval(Trim(m)) n == Len(x)
               IN IF n = 0 THEN FZero ELSE IF n <= P THEN [m |-> x, e |-> e] ELSE [m |-> SubSeq(x, n - P + 1, n), e |-> e + n - P]
RECURSIVE Nat2B(_)
Nat2B(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o Nat2B(n \div BASE)
FInt(n) == FNorm(Nat2B(n), 0)
FBig(b) == FNorm(b, 0)
Shl(m, k) == IF m = <<>> THEN m ELSE [i \in 1..k |-> 0] \o m
FAdd(a, b) ==
  IF a.m = <<>> THEN b ELSE IF b.m = <<>> THEN a
  ELSE LET hi == IF a.e + Len(a.m) >= b.e + Len(b.m) THEN a ELSE b
           lo == IF a.e + Len(a.m) >= b.e + Len(b.m) THEN b ELSE a
           \* bring both to the exponent hi.e - 2 at least
           base == IF lo.e < hi.e - 6 THEN hi.e - 6 ELSE IF lo.e < hi.e THEN lo.e ELSE hi.e
           drop == base - lo.e
           l == IF drop <= 0 THEN Shl(lo.m, -drop) ELSE IF drop >= Len(lo.m) THEN <<>> ELSE SubSeq(lo.m, drop + 1, Len(lo.m))
       IN FNorm(BAdd(Shl(hi.m, hi.e - base), l), base)
FMul(a, b) == FNorm(BMul(a.m, b.m), a.e + b.e)
(* division by an ordinary number k < 2^19 *)
RECURSIVE DivL(_, _, _, _)
DivL(m, k, i, r) == IF i = 0 THEN <<>> ELSE LET s == r * BASE + m[i] IN DivL(m, k, i - 1, s % k) \o <<s \div k>>
FDivI(a, k) == IF a.m = <<>> THEN a ELSE LET m == Shl(a.m, 3) IN FNorm(DivL(m, k, Len(m), 0), a.e - 3)
FPow2(k) == IF k >= 0 THEN [m |-> <<2^(k % 12)>>, e |-> k \div 12] ELSE LET q == ((-k) + 11) \div 12 IN [m |-> <<2^(12 * q + k)>>, e |-> -q]
RECURSIVE FProd(_, _)
FProd(s, n) == IF n = 0 THEN FInt(1) ELSE FMul(FProd(s, n - 1), s[n])
(* comparison *)
FCmp(a, b) == IF a.m = <<>> /\ b.m = <<>> THEN 0 ELSE IF a.m = <<>> THEN -1 ELSE IF b.m = <<>> THEN 1
  ELSE IF a.e + Len(a.m) # b.e + Len(b.m) THEN (IF a.e + Len(a.m) < b.e + Len(b.m) THEN -1 ELSE 1)
  ELSE LET s == IF a.e < b.e THEN a.e ELSE b.e IN BCmp(Shl(a.m, a.e - s), Shl(b.m, b.e - s))
FLe(a, b) == FCmp(a, b) <= 0
(* square root by bisection on the bits of an integer root *)
RECURSIVE Root(_, _, _)
Half(m) == Trim(DivL(m, 2, Len(m), 0))
Root(x, lo, hi) ==      \* lo^2 <= x < hi^2
  IF BCmp(BAdd(lo, <<1>>), hi) >= 0 THEN lo
  ELSE LET mid == Half(BAdd(lo, hi)) IN IF BLe(BMul(mid, mid), x) THEN Root(x, mid, hi) ELSE Root(x, lo, mid)
FSqrt(a) == IF a.m = <<>> THEN a
  ELSE LET k == 8 - Len(a.m)
           k2 == IF (a.e - k) % 2 = 0 THEN k ELSE k + 1
           x == Shl(a.m, k2)
           h == (Len(x) + 1) \div 2
       IN FNorm(Root(x, <<>>, [i \in 1..h |-> 0] \o <<1>>), (a.e - k2) \div 2)
(* a and b agree to one part in 2^bits *)
FNear(a, b, bits) ==
  IF a.m = <<>> \/ b.m = <<>> THEN a.m = b.m
  ELSE LET tol == FPow2(-bits) IN FLe(a, FAdd(b, FMul(b, tol))) /\ FLe(b, FAdd(a, FMul(a, tol)))
=============================================================================
