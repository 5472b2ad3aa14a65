---------------------------- MODULE HeirMachine ----------------------------
(***************************************************************************)
(* The abstract machine on which programs recorded from the compiler run.  *)
(*                                                                         *)
(* A machine state is                                                      *)
(*    e : register file, SSA value number -> value                         *)
(*    m : heap, memref address -> flat sequence of elements                *)
(*    r : values handed over by the last terminator                        *)
(*    c : what an observer of control flow and addresses has seen          *)
(*    k : FALSE once the program has stepped outside its defined behaviour *)
(*        (out-of-bounds access, negative trip step, ...)                  *)
(* A value is an integer (scalar), a flat row-major sequence (tensor,      *)
(* vector or ciphertext slots) or an address (memref).                     *)
(*                                                                         *)
(* Numeric domains d:  n in 1..16  two's complement of width n (i1 is 0/1) *)
(*                     0           exact integer (index, wide integers)    *)
(*                     -1          the field Z_P standing for the reals:   *)
(*                                 every rewriting of a ring expression    *)
(*                                 that is valid over the reals is valid   *)
(*                                 there                                   *)
(*                     100 + q     Z_q, canonical representatives 0..q-1   *)
(* An integer result of domain 0 that leaves the range TLC computes with is *)
(* Top: every value agrees with it, it is never produced by small inputs.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

P == 32749

Pow2(n) == 2 ^ n

Wrap(d, x) ==
  CASE d = 0 -> x
    [] d = -1 -> x % P
    [] d = 1 -> x % 2
    [] d > 100 -> x % (d - 100)
    [] OTHER -> LET y == x % Pow2(d) IN IF y >= Pow2(d - 1) THEN y - Pow2(d) ELSE y

Unsigned(d, x) == IF d \in 1..16 THEN x % Pow2(d) ELSE x

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TruncRem(a, b) == a - b * TruncDiv(a, b)
CeilDiv(a, b) == -((-a) \div b)
RECURSIVE PowMod(_, _, _)
PowMod(b, n, q) == IF n = 0 THEN 1 % q
                   ELSE LET h == PowMod(b, n \div 2, q)
                            s == (h * h) % q
                        IN IF n % 2 = 1 THEN (s * (b % q)) % q ELSE s
InvP(x) == PowMod(x, P - 2, P)

RECURSIVE BitOp(_, _, _, _)
BitOp(f, n, a, b) ==
  IF n = 0 THEN 0
  ELSE LET x == a % 2
           y == b % 2
           z == CASE f = "and" -> x * y
                  [] f = "or" -> IF x + y > 0 THEN 1 ELSE 0
                  [] OTHER -> (x + y) % 2
       IN z + 2 * BitOp(f, n - 1, a \div 2, b \div 2)

Width(d) == IF d \in 1..16 THEN d ELSE 30

\* unsigned order
ULess(d, a, b) == IF d = 0 THEN (IF (a < 0) = (b < 0) THEN a < b ELSE b < 0) ELSE Unsigned(d, a) < Unsigned(d, b)
Top == -1999999999
Big == 1000000000
Bin(f, d, a, b) ==
  IF d = 0 /\ (a = Top \/ b = Top \/ (f \in {"add", "sub"} /\ (Abs(a) > Big \/ Abs(b) > Big))
               \/ (f = "mul" /\ a # 0 /\ b # 0 /\ Abs(a) > Big \div Abs(b))
               \/ (f \in {"divu", "remu", "shru", "cdivu"} /\ (a < 0 \/ b < 0))
               \/ (f = "shl" /\ b \in 0..29 /\ Abs(a) > Big \div Pow2(b))) THEN Top
  ELSE
  CASE f = "add" -> Wrap(d, a + b)
    [] f = "sub" -> Wrap(d, a - b)
    [] f = "fst" -> Wrap(d, a)
    [] f = "mul" -> Wrap(d, a * b)
    [] f = "divs" -> IF b = 0 THEN 0 ELSE Wrap(d, TruncDiv(a, b))
    [] f = "divu" -> IF b = 0 THEN 0 ELSE Wrap(d, Unsigned(d, a) \div Unsigned(d, b))
    [] f = "rems" -> IF b = 0 THEN 0 ELSE Wrap(d, TruncRem(a, b))
    [] f = "remu" -> IF b = 0 THEN 0 ELSE Wrap(d, Unsigned(d, a) % Unsigned(d, b))
    [] f = "fdivs" -> IF b = 0 THEN 0 ELSE Wrap(d, a \div b)
    [] f = "cdivs" -> IF b = 0 THEN 0 ELSE Wrap(d, CeilDiv(a, b))
    [] f = "divf" -> (a * InvP(b)) % P
    [] f = "mins" -> IF a < b THEN a ELSE b
    [] f = "maxs" -> IF a > b THEN a ELSE b
    [] f = "minu" -> IF ULess(d, a, b) THEN a ELSE b
    [] f = "maxu" -> IF ULess(d, b, a) THEN a ELSE b
    [] f \in {"and", "or", "xor"} /\ d = 0 ->
         IF Abs(a) >= Pow2(29) \/ Abs(b) >= Pow2(29) THEN Top
         ELSE LET z == BitOp(f, 30, a % Pow2(30), b % Pow2(30)) IN IF z >= Pow2(29) THEN z - Pow2(30) ELSE z
    [] f \in {"and", "or", "xor"} ->
         Wrap(d, BitOp(f, Width(d), a % Pow2(Width(d)), b % Pow2(Width(d))))
    [] f = "cdivu" -> IF b = 0 THEN 0 ELSE Wrap(d, CeilDiv(Unsigned(d, a), Unsigned(d, b)))
    [] f = "shl" /\ d = 0 -> IF b < 0 \/ b > 29 THEN (IF a = 0 THEN 0 ELSE Top) ELSE a * Pow2(b)
    [] f = "shrs" /\ d = 0 -> IF b < 0 \/ b > 29 THEN (IF a < 0 THEN -1 ELSE 0) ELSE a \div Pow2(b)
    [] f = "shl" -> IF b < 0 \/ b >= Width(d) THEN 0
                    ELSE Wrap(d, (Unsigned(d, a) % Pow2(Width(d) - b)) * Pow2(b))
    [] f = "shrs" -> IF b < 0 \/ b >= Width(d) THEN 0 ELSE Wrap(d, a \div Pow2(b))
    [] f = "shru" -> IF b < 0 \/ b >= Width(d) THEN 0 ELSE Wrap(d, Unsigned(d, a) \div Pow2(b))

Cmp(f, d, a, b) ==
  IF d = 0 /\ (a = Top \/ b = Top) THEN Top ELSE
  LET t == CASE f = "eq" -> a = b
             [] f = "ne" -> a # b
             [] f = "slt" -> a < b
             [] f = "sle" -> a <= b
             [] f = "sgt" -> a > b
             [] f = "sge" -> a >= b
             [] f = "ult" -> ULess(d, a, b)
             [] f = "ule" -> ~ULess(d, b, a)
             [] f = "ugt" -> ULess(d, b, a)
             [] OTHER -> ~ULess(d, a, b)
  IN IF t THEN 1 ELSE 0

Un(f, d, din, a) ==
  IF a = Top THEN Top ELSE
  CASE f = "neg" -> Wrap(d, -a)
    [] f = "exts" -> IF din = 1 THEN Wrap(d, -a) ELSE a
    [] f = "extu" -> IF din = 0 /\ a < 0 THEN Top ELSE Wrap(d, Unsigned(din, a))
    [] f = "trunc" -> Wrap(d, a)
    [] f = "tofp" -> Wrap(d, IF din = 1 THEN -a ELSE a)
    [] f = "utofp" -> IF din = 0 /\ a < 0 THEN Top ELSE Wrap(d, Unsigned(din, a))
    [] f = "id" -> a
    [] f = "abs" -> Wrap(d, Abs(a))
    [] f = "pow2mod" -> Wrap(d, a)

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Prod(sh) == FoldLeft(LAMBDA x, y : x * y, 1, sh)

\* elementwise application, sc says whether the value is a scalar
Map1(sc, Op(_), x) == IF sc THEN Op(x) ELSE [j \in 1..Len(x) |-> Op(x[j])]
Map2(sc, Op(_, _), x, y) == IF sc THEN Op(x, y) ELSE [j \in 1..Len(x) |-> Op(x[j], y[j])]

\* row-major linear index (0-based) of idx in shape sh
Lin(sh, idx) == FoldLeft(LAMBDA acc, j : acc * sh[j] + idx[j], 0, [j \in 1..Len(sh) |-> j])
InB(sh, idx) == Len(sh) = Len(idx) /\ \A j \in 1..Len(sh) : 0 <= idx[j] /\ idx[j] < sh[j]
\* the multi-index of linear position n in shape sh
RECURSIVE Unlin(_, _)
Unlin(sh, n) == IF sh = <<>> THEN <<>>
                ELSE LET rest == Prod(Tail(sh))
                     IN <<n \div rest>> \o Unlin(Tail(sh), n % rest)

RECURSIVE Aff(_, _, _)
Aff(x, ds, ss) ==
  CASE x[1] = "d" -> ds[x[2] + 1]
    [] x[1] = "s" -> ss[x[2] + 1]
    [] x[1] = "c" -> x[2]
    [] x[1] = "+" -> Aff(x[2], ds, ss) + Aff(x[3], ds, ss)
    [] x[1] = "*" -> Aff(x[2], ds, ss) * Aff(x[3], ds, ss)
    [] x[1] = "mod" -> Aff(x[2], ds, ss) % Aff(x[3], ds, ss)
    [] x[1] = "fdiv" -> Aff(x[2], ds, ss) \div Aff(x[3], ds, ss)
    [] x[1] = "cdiv" -> CeilDiv(Aff(x[2], ds, ss), Aff(x[3], ds, ss))
AffMap(m, vals) ==
  LET ds == SubSeq(vals, 1, m.nd)
      ss == SubSeq(vals, m.nd + 1, m.nd + m.ns)
  IN [j \in 1..Len(m.res) |-> Aff(m.res[j], ds, ss)]
AffSet(c, vals) ==
  LET ds == SubSeq(vals, 1, c.nd)
      ss == SubSeq(vals, c.nd + 1, c.nd + c.ns)
  IN \A j \in 1..Len(c.con) : LET v == Aff(c.con[j], ds, ss)
                              IN IF c.eq[j] = 1 THEN v = 0 ELSE v >= 0
\* ---- modular, residue and polynomial arithmetic ----
\* An RNS value is the sequence of its residues; .ds holds the moduli (as domains).
BinR(f, ds, a, b) == [j \in 1..Len(ds) |-> Bin(f, ds[j], a[j], b[j])]
MacM(d, x, y, z) == Bin("add", d, Bin("mul", d, x, y), z)
LiftM(f, d, x) == LET q == d - 100
                      r == x % q
                  IN IF f = "centered" /\ 2 * r >= q THEN r - q ELSE r
\* the integer in 0..Q-1 with residues x modulo the (coprime) moduli qs
Crt(qs, x) ==
  LET st(acc, j) == LET t == CHOOSE t \in 0..(qs[j] - 1) : (acc.x + acc.m * t) % qs[j] = x[j] % qs[j]
                    IN [x |-> acc.x + acc.m * t, m |-> acc.m * qs[j]]
  IN FoldLeft(LAMBDA acc, j : TLCEval(st(acc, j)), [x |-> 0, m |-> 1], [j \in 1..Len(qs) |-> j])
InvM(x, q) == CHOOSE y \in 0..(q - 1) : (x * y) % q = 1 % q
\* product of two coefficient sequences modulo the polynomial f (a sequence of <<coefficient, exponent>>)
\* of degree n, over Z_q given by its domain d
PMulCoeff(d, f, n, a, b) ==
  LET q == d - 100
      conv == [k \in 1..(2 * n - 1) |-> FoldLeft(LAMBDA acc, i : IF k - i + 1 \in 1..n THEN (acc + a[i] * b[k - i + 1]) % q ELSE acc, 0,
                                               [i \in 1..n |-> i])]
      lc == CHOOSE c \in {f[j][1] : j \in 1..Len(f)} : \E j \in 1..Len(f) : f[j] = <<c, n>>
      inv == InvM(lc % q, q)
      red(c, k) == LET h == (c[k + 1] * inv) % q
                   IN FoldLeft(LAMBDA acc, j : [acc EXCEPT ![f[j][2] + k - n + 1] = (@ - h * (f[j][1] % q)) % q], c, [j \in 1..Len(f) |-> j])
      res == FoldLeft(LAMBDA c, k : TLCEval(red(c, k)), TLCEval(conv), [i \in 1..(n - 1) |-> 2 * n - 1 - i])
  IN SubSeq(res, 1, n)
\* evaluations at the odd powers of the primitive 2n-th root w
PNtt(q, n, w, a) ==
  [k \in 1..n |-> LET x == PowMod(w, 2 * k - 1, q)
                  IN FoldLeft(LAMBDA acc, i : (acc * x + a[n + 1 - i]) % q, 0, [i \in 1..n |-> i])]
\* the polynomial with these evaluations, v is the inverse of the root
PIntt(q, n, v, e) ==
  LET ni == InvM(n % q, q)
  IN [i \in 1..n |-> (ni * FoldLeft(LAMBDA acc, k : (acc + e[k] * PowMod(v, (2 * k - 1) * (i - 1), q)) % q, 0, [k \in 1..n |-> k])) % q]
\* apply Op(domain, limb index, limb polynomials) limb by limb
Limb(x, l) == [i \in 1..Len(x) |-> x[i][l]]
ByLimb(nl, n, Op(_)) == LET ls == TLCEval([l \in 1..nl |-> Op(l)]) IN [i \in 1..n |-> [l \in 1..nl |-> ls[l][i]]]

MaxS(s) == FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, s[1], s)
MinS(s) == FoldLeft(LAMBDA a, b : IF a < b THEN a ELSE b, s[1], s)

\* cyclic left rotation of the last dimension by k
Rot(x, n, k) == [j \in 1..Len(x) |->
                   LET row == (j - 1) \div n
                       col == (j - 1) % n
                   IN x[row * n + ((col + k) % n) + 1]]

Set(s, k, v) == [s EXCEPT !.e[k] = v]
SetAll(s, ks, vs) == [s EXCEPT !.e = [j \in DOMAIN s.e |->
                        IF \E n \in 1..Len(ks) : ks[n] = j
                        THEN vs[CHOOSE n \in 1..Len(ks) : ks[n] = j] ELSE s.e[j]]]
SetMany(s, ks, vs) == IF Len(ks) = 0 THEN s
                      ELSE FoldLeft(LAMBDA acc, n : Set(acc, ks[n], vs[n]), s, [n \in 1..Len(ks) |-> n])
Get(s, ks) == [n \in 1..Len(ks) |-> s.e[ks[n]]]
Bad(s) == [s EXCEPT !.k = FALSE]
Ev(s, v) == [s EXCEPT !.c = Append(@, v)]

\* static/dynamic mixed index list: entries of st that are -999999 take the next dynamic one
RECURSIVE Mixed(_, _)
Mixed(st, dy) == IF st = <<>> THEN <<>>
                 ELSE IF Head(st) = -999999 THEN <<Head(dy)>> \o Mixed(Tail(st), Tail(dy))
                      ELSE <<Head(st)>> \o Mixed(Tail(st), dy)
NDyn(st) == Cardinality({n \in 1..Len(st) : st[n] = -999999})

\* ---- a library of homomorphic encryption ----
\* A ciphertext is the address of a heap cell [v |-> slots, l |-> primes dropped, n |-> components]: tensors and
\* arguments hold references to it and operations in place change what all of them see.  A context is the address
\* of [mul |-> relinearization key?, rot |-> rotations with a key, depth |-> primes that can be dropped].
\* A plaintext is the sequence of its slots.  Without a context (op.cx = 0) keys are not looked at.
IsCell(s, a) == a \in 1..Len(s.m)
Ct(op, s) ==
  LET ctx == IF op.cx = 0 THEN [mul |-> TRUE, rot |-> {}, depth |-> 1000] ELSE s.m[s.e[op.cx]]
      cts == {j \in 1..Len(op.k) : op.k[j] = "c"}
      arg(j) == IF op.k[j] = "c" THEN s.m[s.e[op.i[j]]] ELSE [v |-> s.e[op.i[j]], l |-> 0, n |-> 1]
      one == CHOOSE j \in cts : \A k \in cts : j <= k
      N == Len(s.m[s.e[op.i[one]]].v)
      at(x, j) == IF op.sc = 1 THEN x ELSE x[((j - 1) % Len(x)) + 1]      \* a shorter plaintext repeats
      slot(j, x) == IF op.k[j] = "c" THEN s.m[s.e[op.i[j]]].v[x] ELSE at(s.e[op.i[j]], x)
      bin(f) == [x \in 1..N |-> Bin(f, op.d, slot(1, x), slot(2, x))]
      sh == IF op.si = 0 THEN op.sh ELSE s.e[op.si]
      a == arg(1)
      lv == s.m[s.e[op.i[one]]].l
      same == \A j \in cts : s.m[s.e[op.i[j]]].l = lv
      key == op.cx = 0 \/ sh % N = 0 \/ sh \in ctx.rot
      res == CASE op.f \in {"add", "sub"} -> [k |-> same, c |-> [v |-> bin(op.f), l |-> lv, n |-> SetMax({arg(j).n : j \in cts})]]
               [] op.f = "mul" -> LET n == a.n + arg(2).n - 1
                                  IN [k |-> same /\ n <= 3 /\ (op.rl => ctx.mul), c |-> [v |-> bin("mul"), l |-> lv, n |-> IF op.rl THEN 2 ELSE n]]
               [] op.f = "square" -> [k |-> a.n = 2 /\ (op.rl => ctx.mul), c |-> [v |-> [x \in 1..N |-> Bin("mul", op.d, a.v[x], a.v[x])], l |-> lv, n |-> IF op.rl THEN 2 ELSE 3]]
               [] op.f = "neg" -> [k |-> TRUE, c |-> [a EXCEPT !.v = [x \in 1..N |-> Wrap(op.d, -@[x])]]]
               [] op.f = "relin" -> [k |-> ctx.mul /\ a.n <= 3, c |-> [a EXCEPT !.n = 2]]
               [] op.f = "drop" -> [k |-> a.l + op.by <= ctx.depth, c |-> [a EXCEPT !.l = @ + op.by]]
               [] op.f = "rot" -> [k |-> key /\ a.n = 2, c |-> [a EXCEPT !.v = Rot(@, N, sh)]]
               \* a rotation from digits taken before: of the same contents
               [] op.f = "fastrot" -> [k |-> key /\ a.n = 2 /\ a = arg(2), c |-> [a EXCEPT !.v = Rot(@, N, sh)]]
               [] op.f = "copy" -> [k |-> TRUE, c |-> a]
      fits == /\ op.q >= 0 => res.c.l = op.q
              /\ op.n > 0 => res.c.n = op.n
  IN IF (op.cx # 0 /\ ~IsCell(s, s.e[op.cx])) \/ \E j \in cts : ~IsCell(s, s.e[op.i[j]]) THEN Bad(s)
     ELSE IF ~(res.k /\ fits) THEN Bad(s)
     ELSE IF op.at = 0 THEN [s EXCEPT !.m = Append(@, TLCEval(res.c)), !.e[op.u[1]] = Len(s.m) + 1]
     ELSE [s EXCEPT !.m[s.e[op.i[op.at]]] = TLCEval(res.c), !.e[op.u[1]] = s.e[op.i[op.at]]]

RECURSIVE ExecOps(_, _, _), ExecOp(_, _, _), ForLoop(_, _, _, _, _, _, _), WhileLoop(_, _, _, _, _), Call(_, _, _, _)

ExecOps(F, ops, s) ==
  FoldLeft(LAMBDA acc, n : IF acc.k THEN ExecOp(F, ops[n], acc) ELSE acc, s, [n \in 1..Len(ops) |-> n])

\* run block b with its arguments set to vs; results in .r
Block(F, b, vs, s) == ExecOps(F, b.ops, SetMany(s, b.args, vs))

ForLoop(F, b, iv, ub, st, vs, s) ==
  LET trips == IF ub > iv THEN CeilDiv(ub - iv, st) ELSE 0
      fin == FoldLeft(LAMBDA acc, n : LET t == Block(F, b, <<iv + n * st>> \o acc.vs, acc.s)
                                      IN [vs |-> t.r, s |-> t],
                      [vs |-> vs, s |-> Ev(s, trips)], [n \in 1..trips |-> n - 1])
  IN [fin.s EXCEPT !.r = fin.vs]

WhileLoop(F, op, vs, s, fuel) ==
  IF fuel = 0 THEN Bad(s)
  ELSE LET c == Block(F, op.r[1], vs, s)
       IN IF ~c.k THEN c
          ELSE IF c.r[1] = 0 THEN [Ev(c, 0) EXCEPT !.r = Tail(c.r)]
          ELSE LET b == Block(F, op.r[2], Tail(c.r), Ev(c, 1))
               IN IF ~b.k THEN b ELSE WhileLoop(F, op, b.r, b, fuel - 1)

Call(F, f, vs, s) ==
  LET fn == F[f]
      t == ExecOps(F, fn.ops, SetMany([e |-> [j \in 1..fn.n |-> 0], m |-> s.m, r |-> <<>>, k |-> TRUE, x |-> <<>>, c |-> s.c], fn.args, vs))
  IN [s EXCEPT !.m = t.m, !.r = t.r, !.k = s.k /\ t.k, !.c = t.c]

Slice(x, sh, off, siz, str) ==
  [j \in 1..Prod(siz) |-> LET ix == Unlin(siz, j - 1)
                          IN x[Lin(sh, [n \in 1..Len(sh) |-> off[n] + ix[n] * str[n]]) + 1]]
SliceOk(sh, off, siz, str) ==
  \A n \in 1..Len(sh) : siz[n] >= 0 /\ (siz[n] > 0 => off[n] >= 0 /\ off[n] + (siz[n] - 1) * str[n] < sh[n])
PosIn(off, siz, str, ix) ==
  \A n \in 1..Len(ix) : ix[n] >= off[n] /\ (ix[n] - off[n]) % str[n] = 0 /\ (ix[n] - off[n]) \div str[n] < siz[n]
Unslice(x, y, sh, off, siz, str) ==
  [j \in 1..Len(y) |-> LET ix == Unlin(sh, j - 1)
                       IN IF PosIn(off, siz, str, ix)
                          THEN x[Lin(siz, [n \in 1..Len(sh) |-> (ix[n] - off[n]) \div str[n]]) + 1]
                          ELSE y[j]]

\* linalg.generic: for every point of the iteration space run the body
Generic(F, op, s) ==
  LET nin == op.nin
      n == Len(op.i)
      init == [j \in 1..(n - nin) |-> s.e[op.i[nin + j]]]
      pts == Prod(op.dom)
      step(acc, q) ==
        LET pt == Unlin(op.dom, q)
            pos == [j \in 1..n |-> Lin(op.shs[j], AffMap(op.maps[j], pt)) + 1]
            vs == [j \in 1..n |-> IF op.shs[j] = <<-1>> THEN s.e[op.i[j]]
                                  ELSE IF j <= nin THEN s.e[op.i[j]][pos[j]] ELSE acc.o[j - nin][pos[j]]]
            t == Block(F, op.r[1], vs, [acc.s EXCEPT !.x = pt])
        IN [s |-> t, o |-> [j \in 1..(n - nin) |-> [acc.o[j] EXCEPT ![pos[nin + j]] = t.r[j]]]]
      fin == FoldLeft(LAMBDA acc, q : step(acc, q), [s |-> s, o |-> init], [q \in 1..pts |-> q - 1])
  IN SetMany(fin.s, op.u, fin.o)

ExecOp(F, op, s) ==
  CASE op.o = "const" -> Set(s, op.u[1], op.v)
    [] op.o = "bin" -> Set(s, op.u[1], Map2(op.sc, LAMBDA a, b : Bin(op.f, op.d, a, b), s.e[op.i[1]], s.e[op.i[2]]))
    [] op.o = "un" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : Un(op.f, op.d, op.di, a), s.e[op.i[1]]))
    [] op.o = "cmp" -> Set(s, op.u[1], Map2(op.sc, LAMBDA a, b : Cmp(op.f, op.d, a, b), s.e[op.i[1]], s.e[op.i[2]]))
    [] op.o = "select" ->
         LET c == s.e[op.i[1]]
             x == s.e[op.i[2]]
             y == s.e[op.i[3]]
         IN Set(s, op.u[1], IF op.csc THEN (IF c = 1 THEN x ELSE y)
                            ELSE [j \in 1..Len(x) |-> IF c[j] = 1 THEN x[j] ELSE y[j]])
    [] op.o = "id" -> SetMany(s, op.u, Get(s, op.i))
    [] op.o = "nop" -> s
    [] op.o = "yield" -> [s EXCEPT !.r = Get(s, op.i)]
    [] op.o = "rot" -> Set(s, op.u[1], Rot(s.e[op.i[1]], op.n, s.e[op.i[2]]))
    [] op.o = "rotc" -> Set(s, op.u[1], Rot(s.e[op.i[1]], op.n, op.k))
    [] op.o = "rotred" ->
         \* sum (or product, op.f) of op.steps rotations by multiples of op.per, each times its plaintext if there is one
         LET x == s.e[op.i[1]]
             sz == Len(x)
             term(q) == LET y == Rot(x, op.n, q * op.per)
                        IN IF Len(op.i) = 1 THEN y
                           ELSE [j \in 1..sz |-> Bin("mul", op.d, s.e[op.i[2]][q * sz + j], y[j])]
         IN Set(s, op.u[1], FoldLeft(LAMBDA acc, q : LET y == TLCEval(term(q)) IN TLCEval([j \in 1..sz |-> Bin(op.f, op.d, acc[j], y[j])]),
                                     TLCEval(term(0)), [q \in 1..(op.steps - 1) |-> q]))
    [] op.o = "extract" ->
         LET ix == Get(s, Tail(op.i))
         IN IF InB(op.sh, ix) THEN Ev(Set(s, op.u[1], s.e[op.i[1]][Lin(op.sh, ix) + 1]), Lin(op.sh, ix)) ELSE Bad(s)
    [] op.o = "insert" ->
         LET ix == Get(s, Tail(Tail(op.i)))
         IN IF InB(op.sh, ix) THEN Set(Ev(s, Lin(op.sh, ix)), op.u[1], [s.e[op.i[2]] EXCEPT ![Lin(op.sh, ix) + 1] = s.e[op.i[1]]]) ELSE Bad(s)
    [] op.o = "xslice" ->
         LET dy == Get(s, Tail(op.i))
             a == NDyn(op.off)
             b == NDyn(op.siz)
             off == Mixed(op.off, dy)
             siz == Mixed(op.siz, SubSeq(dy, a + 1, Len(dy)))
             str == Mixed(op.str, SubSeq(dy, a + b + 1, Len(dy)))
         IN IF SliceOk(op.sh, off, siz, str) THEN Set(s, op.u[1], Slice(s.e[op.i[1]], op.sh, off, siz, str)) ELSE Bad(s)
    [] op.o = "islice" ->
         LET dy == Get(s, Tail(Tail(op.i)))
             a == NDyn(op.off)
             b == NDyn(op.siz)
             off == Mixed(op.off, dy)
             siz == Mixed(op.siz, SubSeq(dy, a + 1, Len(dy)))
             str == Mixed(op.str, SubSeq(dy, a + b + 1, Len(dy)))
         IN IF SliceOk(op.sh, off, siz, str)
            THEN Set(s, op.u[1], Unslice(s.e[op.i[1]], s.e[op.i[2]], op.sh, off, siz, str)) ELSE Bad(s)
    [] op.o = "pack" -> Set(s, op.u[1], Get(s, op.i))
    [] op.o = "splat" -> Set(s, op.u[1], [j \in 1..op.n |-> s.e[op.i[1]]])
    [] op.o = "concat" ->
         \* op.shs: operand shapes, op.dim: 0-based dimension
         LET sh == op.so
             at(ix) == LET RECURSIVE find(_, _)
                           find(n, o) == IF o < op.shs[n][op.dim + 1]
                                         THEN s.e[op.i[n]][Lin(op.shs[n], [ix EXCEPT ![op.dim + 1] = o]) + 1]
                                         ELSE find(n + 1, o - op.shs[n][op.dim + 1])
                       IN find(1, ix[op.dim + 1])
         IN Set(s, op.u[1], [j \in 1..Prod(sh) |-> at(Unlin(sh, j - 1))])
    [] op.o = "pad" ->
         Set(s, op.u[1], [j \in 1..Prod(op.so) |->
            LET ix == Unlin(op.so, j - 1)
                iy == [n \in 1..Len(ix) |-> ix[n] - op.low[n]]
            IN IF InB(op.sh, iy) THEN s.e[op.i[1]][Lin(op.sh, iy) + 1]
               ELSE Block(F, op.r[1], ix, s).r[1]])
    [] op.o = "generate" ->
         Set(s, op.u[1], [j \in 1..Prod(op.so) |-> Block(F, op.r[1], Unlin(op.so, j - 1), s).r[1]])
    [] op.o = "transpose" ->
         Set(s, op.u[1], [j \in 1..Prod(op.so) |->
            LET ix == Unlin(op.so, j - 1)
            IN s.e[op.i[1]][Lin(op.sh, [n \in 1..Len(op.sh) |-> ix[CHOOSE q \in 1..Len(op.perm) : op.perm[q] = n - 1]]) + 1]])
    [] op.o = "broadcast" ->
         Set(s, op.u[1], [j \in 1..Prod(op.so) |->
            LET ix == Unlin(op.so, j - 1)
                keep == SelectSeq([n \in 1..Len(ix) |-> n], LAMBDA n : ~\E q \in 1..Len(op.dims) : op.dims[q] = n - 1)
            IN s.e[op.i[1]][Lin(op.sh, [n \in 1..Len(keep) |-> ix[keep[n]]]) + 1]])
    [] op.o = "generic" -> Generic(F, op, s)
    [] op.o = "group" -> Set(s, op.u[1], LET x == s.e[op.i[1]] IN [j \in 1..(Len(x) \div op.n) |-> SubSeq(x, (j - 1) * op.n + 1, j * op.n)])
    [] op.o = "flat" -> Set(s, op.u[1], LET x == s.e[op.i[1]] IN [j \in 1..(Len(x) * op.n) |-> x[((j - 1) \div op.n) + 1][((j - 1) % op.n) + 1]])
    [] op.o = "binr" -> Set(s, op.u[1], Map2(op.sc, LAMBDA a, b : BinR(op.f, op.ds, a, b), s.e[op.i[1]], s.e[op.i[2]]))
    [] op.o = "mac" -> Set(s, op.u[1], LET x == s.e[op.i[1]]
                                          y == s.e[op.i[2]]
                                          z == s.e[op.i[3]]
                                      IN IF op.sc THEN MacM(op.d, x, y, z) ELSE [j \in 1..Len(x) |-> MacM(op.d, x[j], y[j], z[j])])
    [] op.o = "macr" -> Set(s, op.u[1], LET x == s.e[op.i[1]]
                                           y == s.e[op.i[2]]
                                           z == s.e[op.i[3]]
                                           one(a, b, c) == [l \in 1..Len(op.ds) |-> MacM(op.ds[l], a[l], b[l], c[l])]
                                       IN IF op.sc THEN one(x, y, z) ELSE [j \in 1..Len(x) |-> one(x[j], y[j], z[j])])
    [] op.o = "lift" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : LiftM(op.f, op.d, a), s.e[op.i[1]]))
    [] op.o = "liftr" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : [l \in 1..Len(op.ds) |-> LiftM(op.f, op.ds[l], a[l])], s.e[op.i[1]]))
    [] op.o = "modsw" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : Wrap(op.d, IF a < (op.di - 100) \div 2 THEN a ELSE a - (op.di - 100)), s.e[op.i[1]]))
    [] op.o = "decomp" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : [l \in 1..Len(op.ds) |-> Wrap(op.ds[l], a)], s.e[op.i[1]]))
    [] op.o = "interp" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : Crt(op.qs, a).x, s.e[op.i[1]]))
    [] op.o = "cvtbasis" ->
         LET t == TLCEval(Crt(op.qs, s.e[op.i[1]]))
             x == IF 2 * t.x > t.m THEN t.x - t.m ELSE t.x
         IN Set(s, op.u[1], [l \in 1..Len(op.ps) |-> x % op.ps[l]])
    [] op.o = "limb" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : a[op.k + 1], s.e[op.i[1]]))
    [] op.o = "limbs" -> Set(s, op.u[1], Map1(op.sc, LAMBDA a : SubSeq(a, op.k + 1, op.k + op.n), s.e[op.i[1]]))
    [] op.o = "barrett" ->
         LET one(x) == x - ((x * (Pow2(2 * op.w) \div op.q)) \div Pow2(2 * op.w)) * op.q
         IN Set(s, op.u[1], Map1(op.sc, LAMBDA a : Wrap(op.d, one(Unsigned(op.d, a))), s.e[op.i[1]]))
    [] op.o = "subifge" -> Set(s, op.u[1], Map2(op.sc, LAMBDA a, b : IF ULess(op.d, a, b) THEN a ELSE Bin("sub", op.d, a, b), s.e[op.i[1]], s.e[op.i[2]]))
    [] op.o = "pmul" ->
         LET a == s.e[op.i[1]]
             b == s.e[op.i[2]]
             p == TLCEval(IF "ds" \in DOMAIN op
                          THEN ByLimb(Len(op.ds), op.n, LAMBDA l : PMulCoeff(op.ds[l], op.m, op.n, Limb(a, l), Limb(b, l)))
                          ELSE PMulCoeff(op.d, op.m, op.n, a, b))
         IN IF "nz" \in DOMAIN op /\ \A j \in 1..Len(p) : p[j] = op.nz THEN Bad(s) ELSE Set(s, op.u[1], p)
    [] op.o = "psc" ->
         LET x == s.e[op.i[1]]
             c == s.e[op.i[2]]
         IN Set(s, op.u[1], [j \in 1..Len(x) |-> IF "ds" \in DOMAIN op THEN BinR("mul", op.ds, x[j], c) ELSE Bin("mul", op.d, x[j], c)])
    [] op.o = "pmono" ->
         LET g == s.e[op.i[2]]
         IN IF g < 0 \/ g >= op.n THEN Bad(s)
            ELSE Set(s, op.u[1], [j \in 1..op.n |-> IF j = g + 1 THEN s.e[op.i[1]] ELSE op.z])
    [] op.o = "pshift" ->
         LET g == s.e[op.i[2]]
             x == s.e[op.i[1]]
         IN IF g < 0 \/ g >= Len(x) THEN Bad(s) ELSE Set(s, op.u[1], [j \in 1..Len(x) |-> x[((j - 1 - g) % Len(x)) + 1]])
    [] op.o = "plead" ->
         LET x == s.e[op.i[1]]
             nz == {j \in 1..Len(x) : x[j] # op.z}
             g == IF nz = {} THEN 1 ELSE CHOOSE j \in nz : \A k \in nz : k <= j
         IN IF "nz" \in DOMAIN op /\ nz = {} THEN Bad(s) ELSE SetMany(s, op.u, <<g - 1, x[g]>>)
    [] op.o = "ppad" -> Set(s, op.u[1], LET x == s.e[op.i[1]] IN [j \in 1..op.n |-> IF j <= Len(x) THEN x[j] ELSE op.z])
    [] op.o = "ntt" ->
         LET x == s.e[op.i[1]]
             f(q, w, y) == IF op.f = "ntt" THEN PNtt(q, op.n, w, y) ELSE PIntt(q, op.n, w, y)
         IN Set(s, op.u[1], IF "ds" \in DOMAIN op THEN ByLimb(Len(op.ds), op.n, LAMBDA l : f(op.ds[l] - 100, op.w[l], Limb(x, l)))
                            ELSE f(op.d - 100, op.w, x))
    [] op.o = "papply" ->
         LET x == s.e[op.i[1]]
         IN Set(s, op.u[1], [j \in 1..Len(x) |-> Block(F, op.r[1], <<x[j], j - 1>>, s).r[1]])
    [] op.o = "index" -> Set(s, op.u[1], s.x[op.k + 1])
    [] op.o = "fill" -> Set(s, op.u[1], [j \in 1..op.n |-> s.e[op.i[1]]])
    \* control flow
    [] op.o = "for" ->
         LET t == ForLoop(F, op.r[1], s.e[op.i[1]], s.e[op.i[2]], s.e[op.i[3]],
                          Get(s, SubSeq(op.i, 4, Len(op.i))), s)
         IN IF s.e[op.i[3]] <= 0 THEN Bad(s) ELSE SetMany(t, op.u, t.r)
    [] op.o = "afor" ->
         LET lo == MaxS(AffMap(op.lb, Get(s, op.li)))
             hi == MinS(AffMap(op.ub, Get(s, op.ui)))
             t == ForLoop(F, op.r[1], lo, hi, op.step, Get(s, op.i), s)
         IN SetMany(t, op.u, t.r)
    [] op.o = "if" ->
         LET t == IF s.e[op.i[1]] = 1 THEN Block(F, op.r[1], <<>>, Ev(s, 1))
                  ELSE IF Len(op.r) = 2 THEN Block(F, op.r[2], <<>>, Ev(s, 0)) ELSE [Ev(s, 0) EXCEPT !.r = <<>>]
         IN SetMany(t, op.u, t.r)
    [] op.o = "aif" ->
         LET t == IF AffSet(op.set, Get(s, op.i)) THEN Block(F, op.r[1], <<>>, Ev(s, 1))
                  ELSE IF Len(op.r) = 2 THEN Block(F, op.r[2], <<>>, Ev(s, 0)) ELSE [Ev(s, 0) EXCEPT !.r = <<>>]
         IN SetMany(t, op.u, t.r)
    [] op.o = "while" ->
         LET t == WhileLoop(F, op, Get(s, op.i), s, 200) IN SetMany(t, op.u, t.r)
    [] op.o = "region" -> LET t == Block(F, op.r[1], Get(s, op.i), s) IN SetMany(t, op.u, t.r)
    [] op.o = "call" -> LET t == Call(F, op.fn, Get(s, op.i), s) IN SetMany(t, op.u, t.r)
    [] op.o = "apply" -> Set(s, op.u[1], AffMap(op.map, Get(s, op.i))[1])
    [] op.o = "amin" -> Set(s, op.u[1], MinS(AffMap(op.map, Get(s, op.i))))
    [] op.o = "amax" -> Set(s, op.u[1], MaxS(AffMap(op.map, Get(s, op.i))))
    \* memory
    [] op.o = "alloc" -> [s EXCEPT !.m = Append(@, [j \in 1..op.n |-> 0]), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "global" -> [s EXCEPT !.m = Append(@, op.v), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "load" ->
         LET ix == AffMap(op.map, Get(s, Tail(op.i)))
         IN IF InB(op.sh, ix) THEN Ev(Set(s, op.u[1], s.m[s.e[op.i[1]]][Lin(op.sh, ix) + 1]), Lin(op.sh, ix)) ELSE Bad(s)
    [] op.o = "store" ->
         LET ix == AffMap(op.map, Get(s, Tail(Tail(op.i))))
         IN IF InB(op.sh, ix) THEN [Ev(s, Lin(op.sh, ix)) EXCEPT !.m[s.e[op.i[2]]][Lin(op.sh, ix) + 1] = s.e[op.i[1]]] ELSE Bad(s)
    [] op.o = "copy" -> [s EXCEPT !.m[s.e[op.i[2]]] = s.m[s.e[op.i[1]]]]
    [] op.o = "tomem" -> [s EXCEPT !.m = Append(@, s.e[op.i[1]]), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "totensor" -> Set(s, op.u[1], s.m[s.e[op.i[1]]])
    \* storage for values computed ahead of time: a cell from (site, indices) to the value put there
    [] op.o = "pnew" -> [s EXCEPT !.m = Append(@, <<>>), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "pput" ->
         LET key == <<op.site>> \o Get(s, Tail(Tail(op.i)))  h == s.e[op.i[2]]  m == s.m[h]
         IN [s EXCEPT !.m[h] = [x \in DOMAIN m \union {key} |-> IF x = key THEN s.e[op.i[1]] ELSE m[x]]]
    [] op.o = "pget" ->
         LET key == <<op.site>> \o Get(s, Tail(op.i))  m == s.m[s.e[op.i[1]]]
         IN IF key \in DOMAIN m THEN Set(s, op.u[1], m[key]) ELSE Bad(s)
    \* encryption
    [] op.o = "ct" -> Ct(op, s)
    [] op.o = "enc" -> [s EXCEPT !.m = Append(@, [v |-> s.e[op.i[1]], l |-> op.l, n |-> 2]), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "dec" -> IF IsCell(s, s.e[op.i[1]]) THEN Set(s, op.u[1], s.m[s.e[op.i[1]]].v) ELSE Bad(s)
    [] op.o = "ctx" -> [s EXCEPT !.m = Append(@, [mul |-> FALSE, rot |-> {}, depth |-> s.e[op.i[1]]]), !.e[op.u[1]] = Len(s.m) + 1]
    [] op.o = "mulkey" -> [s EXCEPT !.m[s.e[op.i[1]]].mul = TRUE]
    [] op.o = "rotkey" -> [s EXCEPT !.m[s.e[op.i[1]]].rot = @ \union {op.ks[j] : j \in 1..Len(op.ks)}]
    [] op.o = "assert" -> IF s.e[op.i[1]] = 1 THEN s ELSE Bad(s)

\* run function f of program F on the argument values, starting from heap h0
Run(F, f, vs, h0) ==
  Call(F, f, vs, [e |-> <<>>, m |-> h0, r |-> <<>>, k |-> TRUE, x |-> <<>>, c |-> <<>>])
=============================================================================
