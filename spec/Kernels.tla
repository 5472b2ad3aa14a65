------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* What every ciphertext kernel computes, slot by slot, and the            *)
(* conformance of a recorded kernel (its DAG as built by the code, the     *)
(* value the code's evaluator gave it, the rotations the code's analyses   *)
(* attribute to it) to that.                                               *)
(***************************************************************************)
EXTENDS ArithDag

Sum(n, f(_)) == FoldLeft(LAMBDA a, j : a + f(j), 0, [j \in 1..n |-> j - 1])
Prd(n, f(_)) == FoldLeft(LAMBDA a, j : a * f(j), 1, [j \in 1..n |-> j - 1])

At(x, j) == x[(j % Len(x)) + 1]              \* slot j, cyclically, 0-based
Slots(n, f(_)) == [j \in 1..n |-> f(j - 1)]

RECURSIVE NextPow2(_)
NextPow2(n) == IF n <= 1 THEN 1 ELSE 2 * NextPow2((n + 1) \div 2)

\* sum (or product) of the rotations by 0, T, ..., (n-1)T
Reduced(v, period, steps, mulOp) ==
  Slots(Len(v), LAMBDA j : IF mulOp THEN Prd(steps, LAMBDA q : At(v, j + q * period))
                           ELSE Sum(steps, LAMBDA q : At(v, j + q * period)))
\* the same with plaintexts p[0..n-1]
ReducedPt(v, p, period, steps) ==
  Slots(Len(v), LAMBDA j : Sum(steps, LAMBDA q : p[q + 1][j + 1] * At(v, j + q * period)))

\* the matrix, zero padded, and its (squat) generalized diagonals
Pad(m, r, c) == IF r < Len(m) /\ c < Len(m[1]) THEN m[r + 1][c + 1] ELSE 0
Diagonals(m, rows, cols, slots) ==
  [i \in 1..(IF rows < cols THEN rows ELSE cols) |-> Slots(slots, LAMBDA k : Pad(m, k % rows, (k + i - 1) % cols))]
MatVec(m, x) == [r \in 1..Len(m) |-> Sum(Len(x), LAMBDA c : m[r][c + 1] * x[c + 1])]
MatMul(a, b) == [r \in 1..Len(a) |-> [c \in 1..Len(b[1]) |-> Sum(Len(b), LAMBDA q : a[r][q + 1] * b[q + 1][c])]]

\* bicyclic / tricyclic encodings of a matrix / batch of matrices
Bicyclic(m, slots) == Slots(slots, LAMBDA k : m[(k % Len(m)) + 1][(k % Len(m[1])) + 1])
Tricyclic(t, slots) == Slots(slots, LAMBDA k : Bicyclic(t[(k % Len(t)) + 1], slots)[k + 1])

\* does y agree with what kernel r.kernel has to deliver on r's inputs
Delivers(r, y) ==
  CASE r.kernel = "matvec" ->
         \* matrix given by diagonals
         y = Slots(r.slots, LAMBDA j : Sum(Len(r.m), LAMBDA q : r.m[q + 1][j + 1] * At(r.v, j + q)))
    [] r.kernel = "rar" ->
         IF r.pt THEN y = ReducedPt(r.v, r.m, r.period, r.steps)
         ELSE y = Reduced(r.v, r.period, r.steps, r.mulOp)
    [] r.kernel = "dot" ->
         \A j \in 1..r.slots : y[j] = Sum(r.steps, LAMBDA q : At(r.v, j - 1 + q) * At(r.w, j - 1 + q))
    [] r.kernel = "hs" ->
         LET want == MatVec(r.mat, r.x)
         IN Len(y) = r.slots /\ \A j \in 1..Len(want) : y[j] = want[j]
    [] r.kernel = "bcast" ->
         \A j \in 0..(r.slots - 1) :
           LET blk == r.steps * r.period
               base == (j \div blk) * blk + (j % r.period)
           IN y[j + 1] = IF r.mulOp THEN Prd(r.steps, LAMBDA q : r.v[base + q * r.period + 1])
                         ELSE Sum(r.steps, LAMBDA q : r.v[base + q * r.period + 1])
    [] r.kernel = "bicyclic" -> y = Bicyclic(MatMul(r.a, r.b), r.slots)
    [] r.kernel = "tricyclic" -> y = Tricyclic([q \in 1..Len(r.a) |-> MatMul(r.a[q], r.b[q])], r.slots)
    [] OTHER -> FALSE

\* the inputs handed to the kernel really are the encodings the property speaks of
Encoded(r) ==
  CASE r.kernel = "hs" -> /\ r.m = Diagonals(r.mat, NextPow2(Len(r.mat)), NextPow2(Len(r.mat[1])), r.slots)
                          /\ \A j \in 1..r.slots : r.v[j] = (LET c == (j - 1) % NextPow2(Len(r.mat[1]))
                                                             IN IF c < Len(r.x) THEN r.x[c + 1] ELSE 0)
    [] r.kernel = "bicyclic" -> r.v = Bicyclic(r.a, r.slots) /\ r.w = Bicyclic(r.b, r.slots)
    [] r.kernel = "tricyclic" -> r.v = Tricyclic(r.a, r.slots) /\ r.w = Tricyclic(r.b, r.slots)
    [] OTHER -> TRUE

\* declared zero diagonals are zero
ZeroOk(r) == \A z \in Range(r.zero) : \A j \in 1..Len(r.m[z + 1]) : r.m[z + 1][j] = 0

\* "index" constants of non-negative loops only: the fdiv node is floor division
KernelOk(r) ==
  LET y == Eval1(r.dag) IN
  /\ Assert(Encoded(r) /\ ZeroOk(r), <<"badly generated case", r.key>>)
  /\ y.k = 1
  /\ Delivers(r, y.v)                    \* the DAG computes the kernel
  /\ r.eval = y                          \* the code's evaluator agrees with the semantics

SecretShifts(dag, slots) ==
  {dag.n[dag.n[n].i[2]].v % slots : n \in RotNodes(dag.n, Secrets(dag.n, dag.s, {}), dag.s)} \ {0}

\* the analyses: indices are exactly those used, and costs count ciphertext rotations
RotationsOk(r) ==
  /\ {x : x \in Range(r.rots)} = AllShifts(r.dag)
  /\ Straight(r.sdag) => r.count = StraightRotations(r.sdag)
  \* the rotation keys requested for the op are those its lowering needs
  /\ ("idx" \in DOMAIN r /\ Straight(r.sdag)) =>
       SecretShifts(r.sdag, r.slots) = {x % r.slots : x \in Range(r.idx)} \ {0}

DagOk(r) ==
  LET e == EvalDag(r.dag) IN
  /\ Len(r.eval) = Len(e)
  /\ \A j \in 1..Len(e) : r.eval[j] = IF e[j].k = -1 THEN e[j].v ELSE <<e[j]>>
  /\ ("rots" \in DOMAIN r => Range(r.rots) = AllShifts(r.rdag))
CountOk(r) == r.count = StraightRotations(r.sdag) /\ r.again = r.count

\* smallest number of the plain rotation set that the two-operand op asks keys for
RotIdx(period, steps, pt) ==
  IF ~pt THEN LET RECURSIVE h(_) h(s) == IF s = 0 THEN {} ELSE {s * period} \cup h(s \div 2) IN h(steps \div 2)
  ELSE LET b == CHOOSE q \in 0..steps : q * q >= steps /\ (q = 0 \/ (q - 1) * (q - 1) < steps)
           g == (steps + b - 1) \div b
       IN {period * q : q \in 1..(b - 1)} \cup {period * q * b : q \in 1..(g - 1)}

\* baby-step giant-step key set of a linear transform with split n1
LinKeys(diags, slots, n1) ==
  LET R == {d % slots : d \in Range(diags)}
  IN ({((d \div n1) * n1) % slots : d \in R} \cup {d % n1 : d \in R}) \ {0}
\* the ratio nbBaby/nbGiant stays within 2^log for the split that is used
BestSplit(diags, slots, log) ==
  LET maxr == 2 ^ log
      nb1(n1) == Cardinality({(((d % slots) \div n1) * n1) % slots : d \in Range(diags)}) - 1
      nb2(n1) == Cardinality({(d % slots) % n1 : d \in Range(diags)}) - 1
      RECURSIVE go(_)
      go(n1) == IF n1 >= slots THEN 1
                ELSE IF nb1(n1) > 0 /\ nb2(n1) = maxr * nb1(n1) THEN n1
                ELSE IF nb1(n1) > 0 /\ nb2(n1) > maxr * nb1(n1) THEN n1 \div 2
                ELSE go(2 * n1)
  IN go(1)

Conforms(r) ==
  IF "crash" \in DOMAIN r THEN FALSE
  ELSE CASE r.t = "kernel" -> KernelOk(r)
         [] r.t = "rotations" -> RotationsOk(r)
         [] r.t = "dag" -> DagOk(r)
         [] r.t = "count" -> CountOk(r)
         [] r.t = "rotidx" -> Range(r.idx) = RotIdx(r.period, r.steps, r.pt) /\ Len(r.idx) = Cardinality(Range(r.idx))
         [] r.t = "lintrans" ->
              /\ r.log >= 0 => r.n1 = BestSplit(r.diags, r.slots, r.log)
              /\ Range(r.idx) = LinKeys(r.diags, r.slots, IF r.log < 0 THEN r.slots ELSE r.n1)
         [] r.t = "normrot" -> r.r = r.a % r.n
=============================================================================
