-------------------------------- MODULE Arith --------------------------------
(* Integer, modular, floating-point-rounding, log-domain and index arithmetic
   used all over the compiler.  Words beyond 32 bits travel as BigNat limbs,
   with witnesses TLC checks.                                               *)
EXTENDS BigNat, FiniteSets
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) == IF e = 0 THEN 1 % m
  ELSE LET h == PowMod(b, e \div 2, m) IN LET s == (h * h) % m IN IF e % 2 = 1 THEN (s * (b % m)) % m ELSE s
Divides(d, n) == n % d = 0
RECURSIVE NoDiv(_, _)
NoDiv(n, d) == IF d * d > n THEN TRUE ELSE IF n % d = 0 THEN FALSE ELSE NoDiv(n, d + 1)
Prime(n) == n >= 2 /\ NoDiv(n, 2)
PrimeDivisors(n) == {d \in 2..n : n % d = 0 /\ Prime(d)}
RECURSIVE ProdBig(_, _)
ProdBig(s, i) == IF i > Len(s) THEN One ELSE BMul(s[i], ProdBig(s, i + 1))
(* Pratt tree: some g has order exactly n-1 *)
RECURSIVE PrattOk(_)
PrattOk(t) ==
  IF t.small # 0 THEN Prime(t.small) /\ (t.n = (IF t.small < BASE THEN <<t.small>> ELSE <<t.small % BASE, t.small \div BASE>>))
  ELSE LET n1 == BSub(t.n, One) IN
       /\ ProdBig(t.fs, 1) = n1
       /\ {t.fs[i] : i \in 1..Len(t.fs)} = {t.subs[i].p.n : i \in 1..Len(t.subs)}
       /\ t.top.b = t.g /\ t.top.m = t.n /\ t.top.e = n1 /\ PowIs(t.top, One)
       /\ \A i \in 1..Len(t.subs) : LET s == t.subs[i] IN
            /\ PrattOk(s.p) /\ s.pw.b = t.g /\ s.pw.m = t.n
            /\ BMul(s.pw.e, s.p.n) = n1 /\ s.v # One /\ PowIs(s.pw, s.v)
(* order of g modulo a small m is exactly k *)
OrderIs(g, m, k) == PowMod(g, k, m) = 1 % m /\ \A p \in PrimeDivisors(k) : PowMod(g, k \div p, m) # 1 % m

Pow2(n) == 2 ^ n
(* rounding mantissa*2^e to p significant bits, ties to even; emin is the
   exponent of the least subnormal bit *)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Strip(_, _)
Strip(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 2 = 0 THEN Strip(m \div 2, e + 1) ELSE <<m, e>>
Rounded(m, e, p, emin) ==
  LET cut == LET c == BitLen(m) - p IN LET d == emin - e IN IF c > d THEN c ELSE d
  IN IF cut <= 0 THEN Strip(m, e)
     ELSE IF cut > 31 THEN <<0, 0>>
     ELSE LET q == m \div Pow2(IF cut > 30 THEN 30 ELSE cut)
              rest == IF cut > 30 THEN m ELSE m % Pow2(cut)
              half == IF cut > 31 THEN 0 ELSE Pow2(IF cut = 31 THEN 30 ELSE cut - 1)
              q2 == IF cut > 30 THEN 0 ELSE q
              up == IF rest > half THEN 1 ELSE IF rest = half /\ cut <= 30 THEN q2 % 2 ELSE 0
          IN Strip(q2 + up, e + cut)

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
SCALE == 1048576
RECURSIVE ProdN(_, _)
ProdN(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdN(s, i + 1)
RECURSIVE FlatIx(_, _, _, _)
FlatIx(sh, ix, i, acc) == IF i > Len(sh) THEN acc ELSE FlatIx(sh, ix, i + 1, acc * sh[i] + ix[i])
Flat(sh, ix) == FlatIx(sh, ix, 1, 0)
RECURSIVE Unflat(_, _)
Unflat(sh, n) == IF Len(sh) = 0 THEN <<>>
  ELSE Unflat(SubSeq(sh, 1, Len(sh) - 1), n \div sh[Len(sh)]) \o <<n % sh[Len(sh)]>>
Expr(v, d) == LET RECURSIVE E(_)
                  E(x) == CASE x[1] = "d" -> d[x[2] + 1] [] x[1] = "c" -> x[2]
                            [] x[1] = "+" -> E(x[2]) + E(x[3]) [] x[1] = "*" -> E(x[2]) * E(x[3])
                            [] x[1] = "mod" -> E(x[2]) % E(x[3]) [] x[1] = "fdiv" -> E(x[2]) \div E(x[3])
                            [] x[1] = "cdiv" -> -((-E(x[2])) \div E(x[3]))
              IN E(v)
MapAt(map, d) == [i \in 1..Len(map) |-> Expr(map[i], d)]

Conforms(r) ==
  IF "crash" \in DOMAIN r THEN FALSE
  ELSE CASE
     r.t = "inv" -> \* small: complete meaning
        IF GCD(r.a, r.m) = 1 /\ r.m > 1 THEN r.r \in 1..r.m - 1 /\ (r.r * r.a) % r.m = 1
        ELSE r.r = 0
  [] r.t = "invbig" -> IF r.coprime = 1 THEN MulModIs(r.a, r.r, r.m, r.q, One) /\ BLt(r.r, r.m)
                       ELSE /\ r.g # One /\ BMul(r.g, r.ag) = r.a /\ BMul(r.g, r.mg) = r.m /\ r.r = <<>>
  [] r.t = "mulmod" -> MulModIs(r.a, r.b, r.m, r.q, r.r)
  [] r.t = "powsmall" -> r.r = PowMod(r.a, r.b, r.m)
  [] r.t = "powbig" -> ModIs(r.a, r.p.m, r.qa, r.p.b) /\ r.p.e = r.e /\ r.p.m = r.m /\ PowIs(r.p, r.r)
  [] r.t = "primes" -> \A i \in 1..Len(r.r) : r.r[i] = Prime(r.lo + i - 1)
  [] r.t = "primebig" -> IF r.is = 1 THEN PrattOk(r.pr) /\ r.pr.n = r.n /\ r.r = TRUE
                         ELSE BMul(r.f, r.g) = r.n /\ r.f # One /\ r.g # One /\ r.r = FALSE
  [] r.t = "factors" -> \A i \in 1..Len(r.r) : LET n == r.lo + i - 1 IN
        /\ \A j \in 1..Len(r.r[i]) - 1 : r.r[i][j] < r.r[i][j + 1]
        /\ Range(r.r[i]) = PrimeDivisors(n)
  [] r.t = "factorbig" -> /\ ProdBig(r.fs, 1) = r.n /\ \A i \in 1..Len(r.prs) : PrattOk(r.prs[i])
                          /\ {r.prs[i].n : i \in 1..Len(r.prs)} = Range(r.fs)
                          /\ Range(r.r) = Range(r.fs) /\ Len(r.r) = Cardinality(Range(r.fs))
                          /\ \A j \in 1..Len(r.r) - 1 : BLt(r.r[j], r.r[j + 1])
  [] r.t = "root" -> IF r.m = 2 THEN r.r = 1 ELSE IF Prime(r.m) THEN r.r \in 1..r.m - 1 /\ OrderIs(r.r, r.m, r.m - 1)
                     ELSE (r.m < 2 \/ r.m % 2 = 0) => r.r = -1
  [] r.t = "root2n" -> IF r.m % (2 * r.n) # 1 THEN r.r = -1
                       ELSE Prime(r.m) => r.r \in 1..r.m - 1 /\ OrderIs(r.r, r.m, 2 * r.n)
  [] r.t = "rootbig" -> \* the root has order exactly 2n, a power of two: root^n = -1
        /\ r.p.b = r.r /\ r.p.m = r.m /\ r.p.e = r.n /\ PowIs(r.p, BSub(r.m, One))
  [] r.t = "genbig" -> \* generator: order q-1, by the Pratt tree rebuilt for this generator
        /\ r.pr.n = r.m /\ r.pr.g = r.r /\ PrattOk(r.pr)
  [] r.t = "npow2" -> /\ r.r # <<>> /\ Canon(r.r) /\ BLe(r.a, r.r) /\ BLt(r.r, BAdd(r.a, r.a))
                      /\ r.r = [i \in 1..Len(r.r) |-> IF i < Len(r.r) THEN 0 ELSE r.r[i]]
                      /\ r.r[Len(r.r)] \in {Pow2(k) : k \in 0..11}
  [] r.t = "ispow2" -> r.r = (r.neg = 0 /\ r.a # <<>> /\ (\A i \in 1..Len(r.a) - 1 : r.a[i] = 0)
                              /\ r.a[Len(r.a)] \in {Pow2(k) : k \in 0..11})
  [] r.t = "fconv" -> LET x == Rounded(Abs(r.m0), r.e0, r.p, r.emin) IN
        /\ r.same
        /\ IF r.inf = 1 THEN x[1] # 0 /\ BitLen(x[1]) + x[2] > r.emax
           ELSE r.exact /\ <<Abs(r.m), r.e>> = x /\ (x[1] # 0 => (r.m < 0) = (r.m0 < 0)) /\ (x[1] # 0 => BitLen(x[1]) + x[2] <= r.emax)
  [] r.t = "log" ->
        LET zx == r.a = 0  zy == r.b = 0  N == -2000000000 IN
        /\ r.s = r.s2 /\ r.p = r.p2 /\ r.seq
        /\ (zx <=> r.x = N) /\ (zy <=> r.y = N)
        /\ r.zero = r.x /\ r.zp = N
        /\ IF zx THEN r.s = r.y ELSE IF zy THEN r.s = r.x
           ELSE r.s >= r.x - 1 /\ r.s >= r.y - 1 /\ (r.s <= r.x + SCALE + 1 \/ r.s <= r.y + SCALE + 1)
        /\ IF zx \/ zy THEN r.p = N ELSE Near(r.p, r.x + r.y, 2)
        \* at scale one, round(value) is the exact integer result
        /\ r.ka = 0 /\ r.kb = 0 => r.vx = r.a /\ r.vy = r.b /\ r.vs = r.a + r.b /\ r.vp = r.a * r.b
        \* powers of two are exact, and so are sums of equal values
        /\ (r.a = 1 => r.x = r.ka * SCALE) /\ (r.b = 1 => r.y = r.kb * SCALE)
        /\ (r.a = r.b /\ r.ka = r.kb /\ ~zx => Near(r.s, r.x + SCALE, 1))
        /\ (r.ka = r.kb => r.lt = (r.a < r.b) /\ r.gt = (r.b < r.a) /\ r.eq = (r.a = r.b))
        /\ (~zx /\ ~zy /\ r.ka > r.kb + 60 => r.gt /\ ~r.lt /\ Near(r.s, r.x, 1))
  [] r.t = "rowmajor" -> LET P == ProdN(r.in, 1) IN
        /\ r.is /\ r.nd = Len(r.in) /\ r.nr = Len(r.out) /\ Len(r.pts) = P
        /\ \A n \in 0..P - 1 : r.pts[n + 1] = Unflat(r.out, n % ProdN(r.out, 1))
  [] r.t = "diag" -> LET n == r.out[1]  m == r.out[2] IN
        /\ (n < m => r.is)     \* recognising its own map at n = m is not promised
        /\ \A k \in 0..ProdN(r.in, 1) - 1 : LET ij == Unflat(r.in, k) IN
             LET d == (ij[2] - ij[1]) % n IN r.pts[k + 1] = <<d, (ij[2] - d) % m>>
  [] r.t = "islayout" -> LET P == ProdN(r.in, 1)
                              rm == \A k \in 0..P - 1 : MapAt(r.map, Unflat(r.in, k)) = Unflat(r.out, k % ProdN(r.out, 1))
                              pts == \A k \in 0..P - 1 : r.pts[k + 1] = MapAt(r.map, Unflat(r.in, k))
                          IN pts /\ (r.rm => rm) /\ (r.expect = 1 => r.rm) /\ (r.expect = 0 => ~r.rm)
                             /\ (r.sq => \A k \in 0..P - 1 : LET ij == Unflat(r.in, k) IN
                                   LET d == (ij[2] - ij[1]) % r.out[1] IN MapAt(r.map, ij) = <<d, (ij[2] - d) % r.out[2]>>)
  [] r.t = "perm" -> /\ r.r = (Range(r.p) = 0..Len(r.p) - 1) /\ r.idp
                     /\ r.id = [i \in 1..r.n |-> i - 1]
  [] r.t = "map1d" -> IF Len(r.map) = 1 /\ r.nd = 1 THEN r.ok /\ r.r = [i \in 1..r.n |-> Expr(r.map[1], <<i - 1>>)] ELSE ~r.ok
  [] r.t = "flat" -> /\ r.r = Flat(r.sh, r.ix) /\ r.rf = r.r /\ r.back = Unflat(r.sh, r.i)
  [] r.t = "reassoc" ->
        LET all == {i \in 0..r.rank - 1 : i \notin Range(r.pos)} IN
        IF all = {} THEN r.r = <<>>
        ELSE /\ Len(r.r) = Cardinality(all)
             /\ \A g \in 1..Len(r.r) : Cardinality(Range(r.r[g]) \cap all) = 1
             /\ LET RECURSIVE Cat(_)
                    Cat(i) == IF i > Len(r.r) THEN <<>> ELSE r.r[i] \o Cat(i + 1)
                IN Cat(1) = [i \in 1..r.rank |-> i - 1]
=============================================================================
