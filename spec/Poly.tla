-------------------------------- MODULE Poly --------------------------------
(* Polynomial rings: single-variable polynomials as finite coefficient
   functions, the negacyclic number-theoretic transform, and residue number
   system polynomials in Z_q[x]/(x^n + 1), limb by limb.                    *)
EXTENDS BigNat, FiniteSets, SequencesExt
\* ---- polynomials: a sequence of <<coefficient, exponent>>
Exps(p) == {p[i][2] : i \in 1..Len(p)}
RECURSIVE SumSq(_, _)
SumSq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSq(s, i + 1)
Coef(p, e) == SumSq([i \in 1..Len(p) |-> IF p[i][2] = e THEN p[i][1] ELSE 0], 1)
Top(p) == IF p = <<>> THEN 0 ELSE CHOOSE m \in Exps(p) : \A e \in Exps(p) : e <= m
Ordered(p) == \A i \in 1..Len(p) - 1 : p[i][2] < p[i + 1][2]
Den(p) == TLCEval([e \in 0..40 |-> Coef(p, e)])       \* meaning of a polynomial
D0 == [e \in 0..40 |-> 0]
DAdd(a, b) == [e \in 0..40 |-> a[e] + b[e]]
DScale(a, k) == [e \in 0..40 |-> k * a[e]]
DMul(a, b) == TLCEval([e \in 0..40 |-> SumSq([i \in 1..e + 1 |-> a[i - 1] * b[e - i + 1]], 1)])
RECURSIVE DComp(_, _, _)
DComp(a, b, i) == IF i > 40 THEN D0      \* Horner from the top, on the nonzero part
  ELSE DAdd([e \in 0..40 |-> IF e = 0 THEN a[i] ELSE 0],
            IF \A j \in i + 1..40 : a[j] = 0 THEN D0 ELSE DMul(b, DComp(a, b, i + 1)))
Is(p, d) == Ordered(p) /\ Den(p) = d
TermStr(t, x) == LET c == ToString(t[1]) IN
  IF t[2] = 0 THEN c ELSE (IF t[1] = 1 THEN "" ELSE c) \o (IF t[2] = 1 THEN "x" ELSE "x" \o x \o ToString(t[2]))
RECURSIVE JoinStr(_, _, _, _)
JoinStr(p, i, sep, x) == IF i > Len(p) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o TermStr(p[i], x) \o JoinStr(p, i + 1, sep, x)
RingOk(r, float) ==
  LET p == Den(r.p)  q == Den(r.q) IN
  /\ Is(r.add, DAdd(p, q)) /\ Is(r.sub, DAdd(p, DScale(q, -1)))
  /\ Is(r.mul, DMul(p, q)) /\ Is(r.scale, DScale(p, r.s))
  /\ Is(r.mm, [e \in 0..40 |-> IF e < r.k THEN 0 ELSE p[e - r.k]])
  /\ (r.p # <<>> => Is(r.comp, DComp(p, q, 0)))
  /\ r.same /\ r.eq = (r.p = r.q) /\ r.ne = ~r.eq
  /\ r.zero = (r.p = <<>>) /\ r.deg = (IF r.p = <<>> THEN -1 ELSE Top(r.p))
  /\ Is(r.canon, p) /\ \A i \in 1..Len(r.canon) : r.canon[i][1] # 0
  /\ \A i \in 1..Len(r.mul) : r.mul[i][1] # 0
  /\ Is(r.fromc, [e \in 0..40 |-> IF e < Len(r.coef) THEN r.coef[e + 1] ELSE 0])
  /\ \A i \in 1..Len(r.fromc) : r.fromc[i][1] # 0
  /\ float \/ /\ r.dense = (IF r.p = <<>> THEN <<>> ELSE [i \in 1..Top(r.p) + 1 |-> p[i - 1]])
              /\ r.print = JoinStr(r.p, 1, " + ", "**") /\ r.str = JoinStr(r.p, 1, "_", "")
              /\ IF Cardinality(Exps(r.mono)) < Len(r.mono) THEN r.fromm = <<<<0, -1>>>> ELSE Is(r.fromm, Den(r.mono))

\* ---- transforms over small moduli, complete
RECURSIVE PMod(_, _, _)
PMod(b, e, m) == IF e = 0 THEN 1 % m ELSE (b * PMod(b, e - 1, m)) % m
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE BitRev(_, _)
BitRev(x, b) == IF b = 0 THEN 0 ELSE (x % 2) * 2 ^ (b - 1) + BitRev(x \div 2, b - 1)
NttAt(v, q, pw, i) == LET n == Len(v)  k == 2 * BitRev(i, Log2(n)) + 1 IN
  FoldLeft(LAMBDA a, j : (a + v[j] * pw[((k * (j - 1)) % (2 * n)) + 1]) % q, 0, [j \in 1..n |-> j])
NttOk(r) == LET n == Len(r.v)
                pw == TLCEval([j \in 1..2 * n |-> PMod(r.w, j - 1, r.q)]) IN
  /\ pw[n + 1] = (r.q - 1) % r.q /\ r.back = r.v
  /\ r.r = (IF n = 1 THEN r.v ELSE [i \in 1..n |-> NttAt(r.v, r.q, pw, i - 1)])
\* linearity and completeness: on the basis, plus every vector for tiny q^n

\* ---- big moduli: sums of products with checked quotients
RECURSIVE BSum(_, _)
BSum(s, i) == IF i > Len(s) THEN <<>> ELSE BAdd(s[i], BSum(s, i + 1))
\* pos - neg = r modulo q, r reduced: pos + a q = neg + r + b q
Congr(pos, neg, q, a, b, r) == Canon(r) /\ BLt(r, q) /\ BAdd(pos, BMul(a, q)) = BAdd(BAdd(neg, r), BMul(b, q))
\* table of powers of the root, each with its quotient
PowTab(q, w, tab, n) == /\ tab[1].r = One
                        /\ \A i \in 2..2 * n : MulModIs(tab[i - 1].r, w, q, tab[i].q, tab[i].r)
                        /\ tab[n + 1].r = BSub(q, One)
NttBig(v, res, q, tab, quot) == LET n == Len(v) IN
  \A i \in 0..n - 1 : LET k == 2 * BitRev(i, Log2(n)) + 1 IN
     Congr(BSum([j \in 1..n |-> BMul(v[j], tab[((k * (j - 1)) % (2 * n)) + 1].r)], 1), <<>>, q, <<>>, quot[i + 1], res[i + 1])
\* coefficient k of the negacyclic product
NegaPos(a, b, k) == BSum([i \in 1..k + 1 |-> BMul(a[i], b[k - i + 2])], 1)
NegaNeg(a, b, k) == LET n == Len(a) IN BSum([i \in 1..n - 1 - k |-> BMul(a[k + 1 + i], b[n - i + 1])], 1)
AddIs(a, b, q, r) == BLt(r, q) /\ (BAdd(a, b) = r \/ BAdd(a, b) = BAdd(r, q))
\* an RNS polynomial has one row per modulus
RnsOk(r) ==
  LET L == Len(r.m)  n == r.n
      lim(x, l) == SubSeq(x, (l - 1) * n + 1, l * n)
      all(x, F(_, _)) == \A l \in 1..L : \A k \in 1..n : F(l, k)
      pow2 == \E e \in 0..20 : n = 2 ^ e
      haveRoots == pow2 /\ \A l \in 1..L : r.rootable[l] = 1
  IN /\ r.nl = L /\ r.nc = n /\ r.el = r.a /\ r.same /\ r.eq = (r.a = r.b)
     /\ r.add.ok /\ ~r.add.ntt /\ r.add.m = r.m
     /\ \A l \in 1..L : \A k \in 1..n : LET i == (l - 1) * n + k IN
           /\ AddIs(r.a[i], r.b[i], r.m[l], r.add.r[i])
           /\ AddIs(r.sub.r[i], r.b[i], r.m[l], r.a[i]) /\ BLt(r.sub.r[i], r.m[l])
           /\ MulModIs(r.a[i], r.s[l], r.m[l], r.sq[i], r.smul.r[i])
     /\ Len(r.add.r) = L * n /\ Len(r.sub.r) = L * n /\ Len(r.smul.r) = L * n
     /\ r.slice.r = SubSeq(r.a, r.from * n + 1, (r.from + r.size) * n)
     /\ r.slice.m = SubSeq(r.m, r.from + 1, r.from + r.size)
     /\ r.ntt.ok = haveRoots /\ r.mul.ok = haveRoots
     /\ haveRoots =>
          /\ r.ntt.ntt /\ r.back.ok /\ ~r.back.ntt /\ r.back.r = r.a /\ r.ntt.m = r.m
          /\ r.emulback.r = r.mul.r /\ r.eaddback.r = r.add.r /\ r.emul.ntt /\ r.eadd.ntt
          /\ \A l \in 1..L :
               /\ PowTab(r.m[l], r.w[l].w, r.w[l].tab, n)
               /\ NttBig(lim(r.a, l), lim(r.ntt.r, l), r.m[l], r.w[l].tab, r.w[l].quot)
               /\ \A k \in 0..n - 1 : Congr(NegaPos(lim(r.a, l), lim(r.b, l), k), NegaNeg(lim(r.a, l), lim(r.b, l), k),
                                          r.m[l], r.mw[(l - 1) * n + k + 1][1], r.mw[(l - 1) * n + k + 1][2], lim(r.mul.r, l)[k + 1])
Conforms(r) == IF "crash" \in DOMAIN r THEN FALSE
  ELSE CASE r.t = "int" -> RingOk(r, FALSE)
         [] r.t = "float" -> RingOk(r, TRUE)
         [] r.t = "ntt" -> NttOk(r)
         [] r.t = "rev" -> r.r = BitRev(r.n, r.b)
         [] r.t = "bigntt" -> /\ PowTab(r.q, r.w, r.tab, Len(r.v)) /\ NttBig(r.v, r.r, r.q, r.tab, r.quot) /\ r.back = r.v
         [] r.t = "rns" -> RnsOk(r)
=============================================================================
