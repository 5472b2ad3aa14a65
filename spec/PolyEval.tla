------------------------------ MODULE PolyEval ------------------------------
(* Evaluating polynomials.  Equality of polynomials of degree d is decided by
   their values at d + 1 points of the field of PRM elements: exact, no
   floating point.  An evaluation DAG is a run of the machine of ArithDag
   with every operation taken modulo PRM.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
PRM == 32749
M(x) == x % PRM
RECURSIVE ChebSeq(_, _, _, _, _)
\* values of T_0..T_n at x
ChebSeq(x, n, i, a, b) == IF i > n THEN <<>> ELSE <<a>> \o ChebSeq(x, n, i + 1, b, M(2 * M(x * b) - a))
Cheb(x, n) == ChebSeq(x, n, 0, 1, x)
RECURSIVE PowSeq(_, _, _, _)
PowSeq(x, n, i, a) == IF i > n THEN <<>> ELSE <<a>> \o PowSeq(x, n, i + 1, M(a * x))
Pow(x, n) == PowSeq(x, n, 0, 1)
Dot(a, b) == FoldLeft(LAMBDA s, i : M(s + M(a[i]) * b[i]), 0, [i \in 1..Len(a) |-> i])
ChebVal(cc, x) == Dot(cc, Cheb(x, Len(cc)))
\* sparse monomials <<coefficient, exponent>>
MonoVal(p, x, n) == LET w == Pow(x, n) IN FoldLeft(LAMBDA s, t : M(s + M(t[1]) * w[t[2] + 1]), 0, p)
\* points spread over the field
Points(k) == [i \in 1..k |-> M(i * 7919 + 13 * i * i)]
Distinct(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)

RunAt(dag, x) ==
  LET D == dag.n
      step(e, n) ==
        LET d == D[n]  in(j) == e[d.i[j]]
        IN Append(e, CASE d.o \in {"const", "splat"} -> M(d.v) [] d.o = "leaf" -> x
                       [] d.o = "add" -> M(in(1) + in(2)) [] d.o = "sub" -> M(in(1) - in(2))
                       [] d.o = "mul" -> M(in(1) * in(2)) [] d.o = "res" -> in(1)
                       [] d.o = "pow" -> Pow(in(1), d.k)[d.k + 1])
  IN FoldLeft(step, <<>>, [n \in 1..Len(D) |-> n])
Known == {"const", "splat", "leaf", "add", "sub", "mul", "res", "pow"}
Usable(dag) == \A n \in 1..Len(dag.n) : dag.n[n].o \in Known /\ (dag.n[n].o \in {"add", "sub", "mul", "res", "pow"} =>
                  \A j \in 1..Len(dag.n[n].i) : dag.n[n].i[j] < n)
Larger(a, b) == IF a > b THEN a ELSE b
\* products of two values that depend on x: the levels an encrypted run consumes
Deps(dag) == FoldLeft(LAMBDA s, n : Append(s, dag.n[n].o = "leaf" \/
   (dag.n[n].o \in {"add", "sub", "mul", "res", "pow"} /\ \E j \in 1..Len(dag.n[n].i) : s[dag.n[n].i[j]])), <<>>, [n \in 1..Len(dag.n) |-> n])
RECURSIVE CeilLog2(_)
CeilLog2(n) == IF n <= 1 THEN 0 ELSE 1 + CeilLog2((n + 1) \div 2)
Depth(dag) == LET dep == TLCEval(Deps(dag)) IN
  FoldLeft(LAMBDA s, n : LET d == dag.n[n] IN Append(s,
     CASE d.o \in {"add", "sub"} -> Larger(s[d.i[1]], s[d.i[2]])
       [] d.o = "mul" -> Larger(s[d.i[1]], s[d.i[2]]) + (IF dep[d.i[1]] /\ dep[d.i[2]] THEN 1 ELSE 0)
       [] d.o = "res" -> s[d.i[1]] [] d.o = "pow" -> s[d.i[1]] + CeilLog2(d.k) [] OTHER -> 0), <<>>, [n \in 1..Len(dag.n) |-> n])
\* tensors: the shape of every constant is the shape asked for
Shaped(dag, sh) == \A n \in 1..Len(dag.n) : (dag.n[n].o = "splat" => dag.n[n].sh = sh) /\ (sh # <<>> => dag.n[n].o # "const")
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
RECURSIVE FixCheb(_, _, _, _, _)
FixCheb(x, n, i, a, b) == IF i = n THEN a ELSE FixCheb(x, n, i + 1, b, ((2 * x * b) \div 10000) - a)

Conforms(r) ==
  IF "crash" \in DOMAIN r THEN FALSE
  ELSE CASE
     r.t = "mono" -> /\ Distinct(Points(r.d + 1)) /\ Usable(r.dag) /\ Shaped(r.dag, r.sh) /\ Len(r.dag.r) = 1
                     /\ \A i \in 1..r.d + 1 : LET x == Points(r.d + 1)[i] IN RunAt(r.dag, x)[r.dag.r[1]] = MonoVal(r.co, x, r.d)
  [] r.t = "cheb" -> IF r.dag.r = <<>> THEN \A i \in 1..Len(r.cc) : r.cc[i] = 0
                     ELSE /\ Usable(r.dag) /\ Shaped(r.dag, r.sh) /\ Len(r.dag.r) = 1
                          /\ \A i \in 1..Len(r.cc) : LET x == Points(Len(r.cc))[i] IN RunAt(r.dag, x)[r.dag.r[1]] = ChebVal(r.cc, x)
                          /\ Depth(r.dag)[r.dag.r[1]] <= CeilLog2(Len(r.cc)) + r.slack
  [] r.t = "powers" -> /\ Usable(r.dag) /\ Shaped(r.dag, r.sh) /\ Len(r.dag.r) = r.n + 1
                       /\ \A i \in 1..r.n + 1 : LET x == Points(r.n + 1)[i]
                                                    e == TLCEval(RunAt(r.dag, x))
                                                    w == TLCEval(IF r.kind = "powers" THEN Pow(x, r.n) ELSE Cheb(x, r.n))
                                                IN \A k \in 0..r.n : e[r.dag.r[k + 1]] = w[k + 1]
                       /\ LET d == TLCEval(Depth(r.dag)) IN \A k \in 1..r.n : d[r.dag.r[k + 1]] = CeilLog2(k)
  [] r.t = "decomp" -> /\ \A i \in 1..Len(r.r) : Len(r.r[i]) <= r.k
                       /\ \A i \in 1..Len(r.cc) : LET x == Points(Len(r.cc))[i]
                                                      y == Cheb(x, r.k)[r.k + 1]
                                                      w == TLCEval(Pow(y, Len(r.r)))
                            IN M(FoldLeft(LAMBDA s, j : M(s + ChebVal(r.r[j], x) * w[j]), 0, [j \in 1..Len(r.r) |-> j])) = ChebVal(r.cc, x)
  [] r.t = "split" -> /\ r.a + r.b = r.n /\ r.a >= 0 /\ r.b >= 0
                      /\ (r.n > 1 => Larger(CeilLog2(r.a), CeilLog2(r.b)) + 1 = CeilLog2(r.n))
  [] r.t = "tostd" -> /\ r.deg = (IF Len(r.cc) = 0 \/ (Len(r.cc) = 1 /\ r.cc[1] = 0) THEN 0 ELSE Len(r.cc) - 1)
                      /\ Len(r.T) = r.n
                      /\ \A i \in 1..Larger(Len(r.cc), r.n) : LET x == Points(40)[i]  w == TLCEval(Cheb(x, Larger(Len(r.cc), r.n))) IN
                           /\ MonoVal(r.std, x, 40) = Dot(r.cc, w)
                           /\ \A k \in 1..r.n : MonoVal(r.T[k], x, 40) = w[k]
  [] r.t = "compose" -> /\ Len(r.r) <= Len(r.cc)
                        /\ \A i \in 1..Len(r.cc) : LET x == Points(Len(r.cc))[i] IN ChebVal(r.r, x) = ChebVal(r.cc, M(M(r.a) * x + r.b))
  [] r.t = "interp" -> \* exact on polynomials of smaller degree, and interpolating on any data
        LET n == r.n IN
        /\ Len(r.pts) = n /\ Len(r.r) = n /\ Len(r.vc) = n
        /\ \A i \in 1..n - 1 : r.pts[i] < r.pts[i + 1]
        /\ \A i \in 1..n : r.pts[i] = -r.pts[n + 1 - i]
        \* extrema of T_{n-1}: values alternate between -1 and 1
        /\ (n \in 2..11 => \A i \in 1..n : Near(FixCheb(r.pts[i] \div 100, n - 1, 0, 10000, r.pts[i] \div 100),
                                  IF (n - i) % 2 = 0 THEN 10000 ELSE -10000, 40 * n))
        /\ \A i \in 1..n : Near(r.r[i], IF i <= Len(r.cc) THEN r.cc[i] * 100000 ELSE 0, 5)
        /\ \A i \in 1..n : Near(r.back[i], r.vals[i] * 100000, 50)
  [] r.t = "approx" ->
        \* same choice of degree at every scale; error as small as promised
        /\ r.n = r.n1
        /\ (r.smooth = 1 => r.err <= 2)
        /\ (r.cc # <<>> => /\ \A i \in 1..Larger(Len(r.r), Len(r.cc)) : Near(IF i <= Len(r.r) THEN r.r[i] ELSE 0, IF i <= Len(r.cc) THEN r.cc[i] * 100000 ELSE 0, 20))
        \* truncation at the degree is what Caratheodory-Fejer improves on
        /\ Len(r.cf) <= r.deg + 1
        /\ r.cferr <= r.trerr + r.trerr \div 2 + 5    \* near-best, not always better
=============================================================================
