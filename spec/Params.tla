------------------------------- MODULE Params -------------------------------
(* Parameter sets for RLWE schemes.  Large numbers are BigNats; primality is
   shown by a Pratt certificate, the factors of p - 1 being certified in turn. *)
EXTENDS Flt
(* ring dimension -> most bits of log2(QP) at 128-bit classical security for
   ternary secrets (Bossuat et al., ia.cr/2024/463)                          *)
SecN == <<1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072>>
SecQ == <<26, 53, 106, 214, 430, 868, 1747, 3523>>
Row(n) == CHOOSE i \in 1..8 : SecN[i] = n
Known(n) == \E i \in 1..8 : SecN[i] = n
\* smallest ring of the table that is large enough and secure
RingDim(bits, min) == LET c == {i \in 1..8 : SecN[i] >= min /\ SecQ[i] >= bits} IN SecN[CHOOSE i \in c : \A j \in c : i <= j]
HasRing(bits, min) == \E i \in 1..8 : SecN[i] >= min /\ SecQ[i] >= bits
Dnum(level) == IF level > 3 THEN 3 ELSE IF level > 0 THEN 2 ELSE 1
CeilDiv(a, b) == (a + b - 1) \div b
(* ---- primes *)
RECURSIVE SmallPrime(_, _)
SmallPrime(n, d) == IF d * d > n THEN TRUE ELSE n % d # 0 /\ SmallPrime(n, d + 1)
RECURSIVE BProd(_)
BProd(s) == IF s = <<>> THEN One ELSE BMul(s[1], BProd(SubSeq(s, 2, Len(s))))
RECURSIVE IsPrime(_)
IsPrime(c) ==      \* c: certificate
  IF c.small # 0 THEN c.small > 1 /\ c.n = Trim(Nat2B(c.small)) /\ SmallPrime(c.small, 2)
  ELSE LET n1 == BSub(c.n, One) IN
       /\ BProd(c.fs) = n1
       /\ \A i \in 1..Len(c.fs) : \E j \in 1..Len(c.subs) : c.subs[j].p.n = c.fs[i]
       /\ c.top.b = c.g /\ c.top.e = n1 /\ c.top.m = c.n /\ PowIs(c.top, One)
       /\ \A j \in 1..Len(c.subs) : LET s == c.subs[j] IN
            /\ IsPrime(s.p)
            /\ s.pw.b = c.g /\ s.pw.m = c.n /\ BMul(s.pw.e, s.p.n) = n1
            /\ PowIs(s.pw, s.v) /\ s.v # One
(* ---- bits *)
RECURSIVE SmallBits(_)
SmallBits(x) == IF x = 0 THEN 0 ELSE 1 + SmallBits(x \div 2)
Bits(b) == IF b = <<>> THEN 0 ELSE 12 * (Len(b) - 1) + SmallBits(b[Len(b)])
RECURSIVE ProdAll(_)
ProdAll(s) == IF s = <<>> THEN FInt(1) ELSE FMul(FBig(s[1]), ProdAll(SubSeq(s, 2, Len(s))))
FBits(f) == 12 * (f.e + Len(f.m) - 1) + SmallBits(f.m[Len(f.m)])
LogFloor(s) == FBits(TLCEval(ProdAll(s))) - 1       \* floor(log2 of the product)
Low(b) == IF b = <<>> THEN 0 ELSE b[1] + (IF Len(b) > 1 THEN BASE * b[2] ELSE 0)
CongruentOne(b, m) == (Low(b) - 1) % m = 0           \* m a power of two up to 2^18
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
NttFriendly(s, n) == \A i \in 1..Len(s) : CongruentOne(s[i], 2 * n)
LogsAre(s, logs) == Len(s) = Len(logs) /\ \A i \in 1..Len(s) : FNear(FBig(s[i]), logs[i], 30)
(* the ring: offered slots, secure for the moduli actually chosen, no larger than needed *)
RingOk(n, minN, qp) ==
  /\ Known(n) /\ n >= minN
  /\ LogFloor(qp) <= SecQ[Row(n)]
  /\ Row(n) > 1 => (SecN[Row(n) - 1] < minN \/ SecQ[Row(n) - 1] < LogFloor(qp))
Maxi(S) == CHOOSE x \in S : \A y \in S : y <= x
Conforms(r) ==
  CASE r.t = "ringdim" -> IF HasRing(r.bits, r.min) THEN r.r = RingDim(r.bits, r.min) ELSE r.r = -1
    [] r.t = "dnum" -> r.r = Dnum(r.level)
    [] r.t = "prime" -> /\ IsPrime(r.cert) /\ r.cert.n = r.r /\ CongruentOne(r.r, 2 * r.n)
                        /\ Bits(r.r) > r.bits
                        /\ \A i \in 1..Len(r.have) : r.have[i] # r.r
    [] r.t = "cons" ->
         LET d == Dnum(r.level) k == CeilDiv(r.level + 1, d) IN
         /\ r.rlevel = r.level /\ r.dnum = d /\ Len(r.logqi) = r.level + 1 /\ Len(r.logpi) = k
         /\ \A i \in 1..Len(r.logqi) : r.logqi[i] = FPow2(60)
         /\ \A i \in 1..Len(r.logpi) : r.logpi[i] = FPow2(60)
         /\ r.n = RingDim(60 * (r.level + 1 + k), 2 * r.slots)
         /\ r.pk = r.wpk /\ r.ext = r.wext
    [] r.t = "conc" ->
         LET L == Len(r.req) d == Dnum(L - 1) want == [i \in 1..L |-> IF r.req[i] < 20 THEN 20 ELSE r.req[i]]
             mx == Maxi({want[i] : i \in 1..L}) all == r.qi \o r.pi IN
         /\ Len(r.qi) = L /\ Len(r.pi) = CeilDiv(L, d) /\ r.dnum = d /\ r.level = L - 1
         /\ r.pk = r.wpk /\ r.ext = r.wext /\ r.pt = r.plain
         /\ RingOk(r.n, 2 * r.slots, all)
         /\ NttFriendly(all, r.n) /\ Distinct(IF r.plain = One \/ r.plain = <<>> THEN all ELSE Append(all, r.plain))
         /\ \A i \in 1..L : Bits(r.qi[i]) > want[i]
         /\ \A i \in 1..Len(r.pi) : Bits(r.pi[i]) > mx
         /\ LogsAre(r.qi, r.logqi) /\ LogsAre(r.pi, r.logpi)
         /\ \A i \in 1..Len(r.certs) : IsPrime(r.certs[i])
         /\ {r.certs[i].n : i \in 1..Len(r.certs)} = {all[i] : i \in 1..Len(all)}
    [] r.t = "ckks" ->
         LET all == r.qi \o r.pi d == Dnum(r.levels) IN
         /\ Len(r.qi) = r.levels + 1 /\ r.level = r.levels /\ r.dnum = d /\ r.scale = r.wscale /\ r.pk = r.wpk /\ r.ext = r.wext
         /\ Len(r.pi) = CeilDiv(CeilDiv(r.first + r.wscale * r.levels, d), 60)
         /\ RingOk(r.n, 2 * r.slots, all)
         /\ NttFriendly(all, r.n) /\ Distinct(all)
         \* every rescaling prime is near the scale, the first one near its size
         /\ \A i \in 2..Len(r.qi) : FNear(FBig(r.qi[i]), FPow2(r.wscale), r.near)
         /\ Bits(r.qi[1]) \in {r.first, r.first + 1}
         /\ \A i \in 1..Len(r.pi) : Bits(r.pi[i]) = 61
         /\ LogsAre(r.qi, r.logqi) /\ LogsAre(r.pi, r.logpi)
         /\ \A i \in 1..Len(r.certs) : IsPrime(r.certs[i])
         /\ {r.certs[i].n : i \in 1..Len(r.certs)} = {all[i] : i \in 1..Len(all)}
=============================================================================
