------------------------------- MODULE Layout -------------------------------
(* Layout relations as sets of integer points.  Rel(e) is the meaning of a
   layout expression e: the set of tuples <<domain..., range...>> it holds.
   Everything the compiler's presburger/isl code answers about a relation
   (points, bounds, recognition, equality, loops, packing) is compared with
   this set. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HasK(r, f) == f \in DOMAIN r
Rng(s) == {s[i] : i \in DOMAIN s}
CDiv(a, b) == (a + b - 1) \div b
Pow2Up(n) == CHOOSE p \in {2 ^ k : k \in 0..30} : p >= n /\ (p = 1 \/ p \div 2 < n)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
(* all index tuples of a box, and of a shape *)
RECURSIVE Box(_, _)
Box(lo, hi) == IF lo = <<>> THEN {<<>>}
               ELSE LET t == Box(Tail(lo), Tail(hi)) IN {<<x>> \o y : x \in lo[1]..hi[1], y \in t}
Idx(shape) == Box([i \in 1..Len(shape) |-> 0], [i \in 1..Len(shape) |-> shape[i] - 1])
RECURSIVE Flat(_, _)
Flat(i, shape) == IF i = <<>> THEN 0 ELSE LET n == Len(i) IN
    Flat(SubSeq(i, 1, n - 1), SubSeq(shape, 1, n - 1)) * shape[n] + i[n]
Min2(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------ the standard layouts *)
RowMajor(sh, N) == LET P == Pow2Up(Prod(sh)) IN
    UNION {LET f == Flat(i, sh) IN {i \o <<f \div N, s>> : s \in {t \in 0..(N - 1) : t % P = f % N}} : i \in Idx(sh)}
Diagonal(m, n, N) == LET pr == Pow2Up(m) pc == Pow2Up(n) IN
    {q \in {<<s % pr, (c + s) % pc, c, s>> : c \in 0..(Min2(pr, pc) - 1), s \in 0..(N - 1)} : q[1] < m /\ q[2] < n}
Bicyclic(m, n, N) ==
    {LET k == c * N + s IN <<k % m, k % n, c, s>> : c \in 0..(CDiv(m * n, N) - 1), s \in 0..(N - 1)}
Tricyclic(h, m, n, N) ==
    {LET k == c * N + s IN <<k % h, k % m, k % n, c, s>> : c \in 0..(CDiv(h * m * n, N) - 1), s \in 0..(N - 1)}
BicyclicDiag(sh, cd, st, N) ==
    LET n == sh[cd + 1] p == sh[2 - cd] IN
    {LET a == (s + d * st) % n b == s % p IN (IF cd = 0 THEN <<a, b>> ELSE <<b, a>>) \o <<d, s>> :
        d \in 0..(n - 1), s \in 0..(N - 1)}
Periodic(N, P) == {<<0, s % P, 0, s>> : s \in 0..(N - 1)}
PerRow(sh, N) == LET P == Pow2Up(sh[2]) IN
    {q \in {<<r, s % P, r, s>> : r \in 0..(sh[1] - 1), s \in 0..(N - 1)} : q[2] < sh[2]}

(* ------------------------------------- convolution as a matrix (Toeplitz) *)
OutSize(d, f, st, p) == (d + 2 * p - f) \div st + 1
Conv1(f, d, st, p) ==
    {q \in {<<k, o, o * st - p + k>> : k \in 0..(f - 1), o \in 0..(OutSize(d, f, st, p) - 1)} : q[3] >= 0 /\ q[3] < d}
Conv2(fs, ds, st, p) ==
    LET oh == OutSize(ds[1], fs[1], st[1], p) ow == OutSize(ds[2], fs[2], st[2], p)
        ok(q) == LET r == q[3] * st[1] - p + q[1] c == q[4] * st[2] - p + q[2] IN r >= 0 /\ r < ds[1] /\ c >= 0 /\ c < ds[2]
    IN {<<q[1], q[2], q[3] * ow + q[4], (q[3] * st[1] - p + q[1]) * ds[2] + q[4] * st[2] - p + q[2]>> :
          q \in {q \in Idx(<<fs[1], fs[2], oh, ow>>) : ok(q)}}
(* several channels: one block per (output, input) channel *)
Blocks(single, F, C, rows, cols) ==
    {LET n == Len(q) IN <<f, c>> \o SubSeq(q, 1, n - 2) \o <<f * rows + q[n - 1], c * cols + q[n]>> :
        q \in single, f \in 0..(F - 1), c \in 0..(C - 1)}
ExpandedType(f, d, st, p) ==
    CASE Len(f) = 1 -> <<OutSize(d[1], f[1], st[1], p), d[1]>>
      [] Len(f) = 2 -> <<OutSize(d[1], f[1], st[1], p) * OutSize(d[2], f[2], st[2], p), d[1] * d[2]>>
      [] Len(f) = 3 -> <<f[1] * OutSize(d[3], f[3], st[1], p), d[2] * d[3]>>
      [] Len(f) = 4 -> <<f[1] * OutSize(d[3], f[3], st[1], p) * OutSize(d[4], f[4], st[2], p), d[2] * d[3] * d[4]>>
ConvRel(f, d, st, p) ==
    CASE Len(f) = 1 -> Conv1(f[1], d[1], st[1], p)
      [] Len(f) = 2 -> Conv2(f, d, st, p)
      [] Len(f) = 3 -> LET t == ExpandedType(<<f[3]>>, <<d[3]>>, st, p) IN
                       Blocks(Conv1(f[3], d[3], st[1], p), f[1], f[2], t[1], t[2])
      [] Len(f) = 4 -> LET t == ExpandedType(<<f[3], f[4]>>, <<d[3], d[4]>>, st, p) IN
                       Blocks(Conv2(<<f[3], f[4]>>, <<d[3], d[4]>>, st, p), f[1], f[2], t[1], t[2])
(* pixel shuffle: channel ci of a g x g group goes to sub-pixel ci of its block *)
Shuffle2(i, C, H, W, g) ==
    LET ci == i \div (H * W) hi == ((i % (H * W)) \div W) wi == i % W IN
    (wi * g + (ci % g)) + (hi * g + ((ci % (g * g)) \div g)) * (W * g) + (ci \div (g * g)) * (H * g * W * g)
Shuffle1(i, C, W, g) == LET ci == i \div W wi == i % W IN (wi * g + (ci % g)) + (ci \div g) * (W * g)
(* slots that carry flat element f of a packed tensor with n elements *)
FlatSlots(f, n, N) == LET P == Pow2Up(n) IN {<<f \div N, s>> : s \in {t \in 0..(N - 1) : t % P = f % N}}
Diagonalize(R, N, m, n) == LET G == TLCEval(Diagonal(m, n, N)) IN
    UNION {LET k == Len(q) IN {SubSeq(q, 1, k - 2) \o <<z[3], z[4]>> : z \in {z \in G : z[1] = q[k - 1] /\ z[2] = q[k]}} : q \in R}
RowMax(R) == LET S == {q[Len(q) - 1] : q \in R} IN CHOOSE x \in S : \A y \in S : y <= x
ColMax(R) == LET S == {q[Len(q)] : q \in R} IN CHOOSE x \in S : \A y \in S : y <= x
Interchange(R, perm(_)) == {LET k == Len(q) IN SubSeq(q, 1, k - 2) \o <<perm(q[k - 1]), q[k]>> : q \in R}

(* --------------------------------------------------------- expressions *)
RECURSIVE Dot(_, _, _)
Dot(c, p, i) == IF i > Len(p) THEN 0 ELSE c[i] * p[i] + Dot(c, p, i + 1)
Val(c, p) == Dot(c, p, 1) + c[Len(p) + 1]
ConHolds(e, p) == /\ \A i \in DOMAIN e.eq : Val(e.eq[i], p) = 0
                  /\ \A i \in DOMAIN e.ge : Val(e.ge[i], p) >= 0
                  /\ \A i \in DOMAIN e.mods : LET m == e.mods[i] n == Len(p) IN Val(m, p) % m[n + 2] = m[n + 3]
RECURSIVE ND(_)           \* number of domain variables
ND(e) == CASE e.k = "con" -> e.d
           [] e.k = "isl" -> e.con.d
           [] e.k \in {"rowmajor"} -> Len(e.shape)
           [] e.k \in {"diagonal", "bicyclic", "bicyclicdiag", "perrow", "periodic", "inter2lay"} -> 2
           [] e.k = "tricyclic" -> 3
           [] e.k \in {"conv1", "conv2", "conv1c", "conv2c", "convdiag", "conv1cdiag"} -> Len(e.filter)
           [] e.k \in {"result1", "result2"} -> Len(e.shape)
           [] e.k \in {"inter1", "inter2"} -> 1
           [] e.k \in {"fix", "diag2d", "round", "hoist", "shift", "foldperm"} -> ND(e.of)
           [] e.k = "prepend" -> ND(e.of) + 1
           [] e.k \in {"collapse"} -> Len(e.result)
           [] e.k \in {"expand", "push"} -> Len(e.shape)
           [] e.k = "collapsed" -> Len(e.src)
           [] e.k = "sliceins" -> Len(e.slice)
           [] e.k = "sliceext" -> Len(e.shape)
           [] e.k = "padding" -> Len(e.padded)
Dom(p, d) == SubSeq(p, 1, d)
Ran(p, d) == SubSeq(p, d + 1, Len(p))
(* dimension of the sliced (rank-reduced) tensor for dimension i of the big
   one, by MLIR's rule: unit sizes are dropped, from the left, as many as the
   rank difference, a unit dimension of the small type matching in order *)
RECURSIVE KeptDims(_, _, _)
KeptDims(sizes, small, i) ==       \* sequence of kept big dimensions
    IF i > Len(sizes) THEN <<>>
    ELSE IF small # <<>> /\ sizes[i] = Head(small) THEN <<i>> \o KeptDims(sizes, Tail(small), i + 1)
    ELSE KeptDims(sizes, small, i + 1)
SliceRel(small, shape, off, sizes, strides) ==
    LET kept == KeptDims(sizes, small, 1)
        pos(i) == IF \E j \in DOMAIN kept : kept[j] = i THEN CHOOSE j \in DOMAIN kept : kept[j] = i ELSE 0
    IN {<<d, [i \in 1..Len(shape) |-> off[i] + (IF pos(i) = 0 THEN 0 ELSE d[pos(i)]) * strides[i]]>> : d \in Idx(small)}
RECURSIVE GroupFlat(_, _, _)
GroupFlat(i, src, g) == IF g = <<>> THEN 0 ELSE LET n == Len(g) IN
    GroupFlat(i, src, SubSeq(g, 1, n - 1)) * src[g[n] + 1] + i[g[n] + 1]
RECURSIVE DropUnits(_, _, _)
DropUnits(p, drop, i) == IF i > Len(p) THEN <<>> ELSE (IF i \in drop THEN <<>> ELSE <<p[i]>>) \o DropUnits(p, drop, i + 1)
RECURSIVE AddUnits(_, _, _)      \* put zeroes where the unit dimensions go
AddUnits(p, units, i) == IF i > Len(units) THEN p
    ELSE IF units[i] THEN <<0>> \o AddUnits(p, units, i + 1)
    ELSE <<Head(p)>> \o AddUnits(Tail(p), units, i + 1)
RECURSIVE Rel(_)
Rel(e) ==
    CASE e.k = "con" -> {p \in Box(e.lo, e.hi) : ConHolds(e, p)}
      [] e.k = "isl" -> Rel(e.con)
      [] e.k = "rowmajor" -> RowMajor(e.shape, e.n)
      [] e.k = "diagonal" -> Diagonal(e.shape[1], e.shape[2], e.n)
      [] e.k = "bicyclic" -> Bicyclic(e.shape[1], e.shape[2], e.n)
      [] e.k = "tricyclic" -> Tricyclic(e.shape[1], e.shape[2], e.shape[3], e.n)
      [] e.k = "bicyclicdiag" -> BicyclicDiag(e.shape, e.dim, e.stride, e.n)
      [] e.k = "periodic" -> Periodic(e.n, e.period)
      [] e.k = "perrow" -> PerRow(e.shape, e.n)
      [] e.k = "round" -> Rel(e.of)
      [] e.k \in {"conv1", "conv2", "conv1c", "conv2c"} -> ConvRel(e.filter, e.data, e.strides, e.pad)
      [] e.k = "convdiag" -> LET R == TLCEval(ConvRel(e.filter, e.data, [i \in 1..2 |-> 1], e.pad)) IN
                             Diagonalize(R, e.n, RowMax(R) + 1, ColMax(R) + 1)
      [] e.k = "conv1cdiag" -> LET R0 == TLCEval(ConvRel(e.filter, e.data, e.strides, e.pad))
                                   ow == OutSize(e.data[3], e.filter[3], e.stride, e.pad)
                                   R == IF e.inter THEN Interchange(R0, LAMBDA i : Shuffle1(i, e.filter[1], ow, e.stride)) ELSE R0
                               IN Diagonalize(R, e.n, RowMax(R) + 1, ColMax(R) + 1)
      [] e.k = "diag2d" -> LET R == TLCEval(Rel(e.of)) IN Diagonalize(R, e.n, RowMax(R) + 1, ColMax(R) + 1)
      [] e.k = "inter1" -> {<<i, Shuffle1(i, e.ch, e.w, e.g)>> : i \in 0..(e.ch * e.w - 1)}
      [] e.k = "inter2" -> {<<i, Shuffle2(i, e.ch, e.h, e.w, e.g)>> : i \in 0..(e.ch * e.h * e.w - 1)}
      [] e.k = "result1" -> LET n == Prod(e.shape) IN
            UNION {LET f == Flat(i, e.shape)
                       f2 == IF e.inter THEN Shuffle1(f, e.shape[2], e.shape[3], e.stride) ELSE f IN
                   {i \o z : z \in FlatSlots(f2, n, e.n)} : i \in Idx(e.shape)}
      [] e.k = "result2" -> LET n == Prod(e.shape) IN
            UNION {{i \o z : z \in FlatSlots(Flat(i, e.shape), n, e.n)} : i \in Idx(e.shape)}
      [] e.k = "inter2lay" -> LET n == Prod(e.shape) P == Pow2Up(n) cts == CDiv(n, e.n) IN
            UNION {LET f2 == Shuffle2(f, e.shape[2], e.shape[3], e.shape[4], e.strides[1]) IN
                   {<<x[1], x[2], y[1], y[2]>> : x \in FlatSlots(f, n, e.n), y \in FlatSlots(f2, n, e.n)} \cap
                   {<<(k * P + f) \div e.n, (k * P + f) % e.n, (k * P + f2) \div e.n, (k * P + f2) % e.n>> : k \in 0..((cts * e.n) \div P)}
                   : f \in 0..(n - 1)}
      [] e.k = "fix" -> LET d == ND(e.of) o == IF e.dom THEN 0 ELSE d IN
                        {p \in Rel(e.of) : \A i \in DOMAIN e.v : p[o + i] = e.v[i]}
      [] e.k = "shift" -> {[p EXCEPT ![e.pos + 1] = @ + e.by] : p \in Rel(e.of)}
      [] e.k = "prepend" -> LET d == ND(e.of) IN
                            {<<x>> \o Dom(p, d) \o <<x>> \o Ran(p, d) : x \in e.lb..e.ub, p \in Rel(e.of)}
      [] e.k = "collapse" -> LET drop == {j + 1 : j \in Rng(e.drop)} IN
                             {DropUnits(p, drop, 1) : p \in {p \in Rel(e.of) : \A j \in drop : p[j] = 0}}
      [] e.k = "expand" -> {AddUnits(p, e.units, 1) : p \in Rel(e.of)}
      [] e.k = "collapsed" -> {i \o [j \in 1..Len(e.groups) |-> GroupFlat(i, e.src, e.groups[j])] : i \in Idx(e.src)}
      [] e.k = "sliceins" -> {q[1] \o q[2] : q \in SliceRel(e.slice, e.shape, e.off, e.sizes, e.strides)}
      [] e.k = "sliceext" -> {q[2] \o q[1] : q \in SliceRel(e.slice, e.shape, e.off, e.sizes, e.strides)}
      [] e.k = "padding" -> {[j \in 1..Len(i) |-> i[j] + e.low[j]] \o i : i \in Idx(e.shape)}
      [] e.k = "foldperm" -> LET perm == Rel(e.perm) IN
            {<<m[1], z[1], m[3], m[4]>> : z \in perm, m \in Rel(e.of)} \cap
            UNION {{<<m[1], z[1], m[3], m[4]>> : m \in {m \in Rel(e.of) : m[2] = z[3]}} : z \in perm}
      [] e.k = "hoist" -> LET fr == TLCEval(Rel(e.from)) to == TLCEval(Rel(e.to))
                              mv == TLCEval({<<a[3], b[3]>> : a \in fr, b \in to} \cap
                                    UNION {{<<a[3], b[3]>> : b \in {b \in to : b[1] = a[1]}} : a \in fr}) IN
            UNION {{<<m[1], m[2], m[3], z[2]>> : z \in {z \in mv : z[1] = m[4]}} : m \in Rel(e.of)}
      [] e.k = "push" -> LET R == TLCEval(Rel(e.of)) d == ND(e.of)
                             units == {i \in DOMAIN e.sizes : e.sizes[i] = 1}
                             nct == 1 + (LET S == {p[d + 1] : p \in R} IN CHOOSE x \in S : \A y \in S : y <= x)
                             ush == [i \in DOMAIN e.sizes |-> IF i \in units THEN e.shape[i] ELSE 1]
                             RECURSIVE num(_, _, _)
                             num(u, i, w) == IF i > Len(u) THEN 0
                                             ELSE IF i \in units THEN u[i] * w + num(u, i + 1, w * e.shape[i]) ELSE num(u, i + 1, w)
                             full(p, u) == IF d = Len(e.sizes) THEN [i \in 1..d |-> IF i \in units THEN u[i] ELSE p[i]]
                                           ELSE LET RECURSIVE mix(_, _)
                                                    mix(q, i) == IF i > Len(u) THEN <<>>
                                                                 ELSE IF i \in units THEN <<u[i]>> \o mix(q, i + 1)
                                                                 ELSE <<Head(q)>> \o mix(Tail(q), i + 1)
                                                IN mix(Dom(p, d), 1)
                         IN {full(p, u) \o <<num(u, 1, 1) * nct + p[d + 1], p[d + 2]>> : p \in R, u \in Idx(ush)}

(* ------------------------------------------------------------ answers *)
Set(s) == Rng(s)
NoDup(s) == Cardinality(Rng(s)) = Len(s)
RanSet(R, d) == {Ran(p, d) : p \in R}
Bij(S) == /\ \A p, q \in S : (p[1] = q[1]) = (p[2] = q[2])
RecOK(r, R) ==
    LET t == r.q.rec IN
    /\ r.rm => R = RowMajor(t.shape, t.n)
    /\ HasK(r, "sq") /\ r.sq => R = Diagonal(t.shape[1], t.shape[2], t.n)
    /\ HasK(r, "pr") /\ r.pr => R = PerRow(t.shape, t.n)
    /\ r.bi => R = Bicyclic(t.shape[1], t.shape[2], t.n)
    /\ r.tri => R = Tricyclic(t.shape[1], t.shape[2], t.shape[3], t.n)
    /\ r.one => \A p \in R : p[2] = 0
    /\ r.one => Bij({<<p[1], p[3]>> : p \in R})
    \* a layout made by the constructor is recognised
    /\ r.e.k = "rowmajor" /\ r.e.shape = t.shape /\ r.e.n = t.n => r.rm
    /\ r.e.k = "diagonal" /\ r.e.shape = t.shape /\ r.e.n = t.n => r.sq
    /\ r.e.k = "perrow" /\ r.e.shape = t.shape /\ r.e.n = t.n => r.pr
    /\ r.e.k = "bicyclic" /\ r.e.shape = t.shape /\ r.e.n = t.n /\ 1 \notin Rng(t.shape) => r.bi
    /\ r.e.k = "tricyclic" /\ r.e.shape = t.shape /\ r.e.n = t.n /\ 1 \notin Rng(t.shape) => r.tri
At(m, i) == IF Len(i) = 1 THEN m[1][i[1] + 1] ELSE m[i[1] + 1][i[2] + 1]
EvalOK(r, R) ==
    LET d == ND(r.e) v == r.q.eval
        holds(c, s) == {At(v, Dom(p, d)) : p \in {p \in R : p[d + 1] = c /\ p[d + 2] = s}}
        grid == Idx(<<Len(r.packed), Len(r.packed[1])>>)
    IN /\ IF HasK(r.q, "oshape") THEN Len(r.packed) = r.q.oshape[1] /\ Len(r.packed[1]) = r.q.oshape[2]
          ELSE \A p \in R : p[d + 1] < Len(r.packed) /\ p[d + 2] < Len(r.packed[1])
       /\ \A g \in grid : LET h == holds(g[1], g[2]) x == r.packed[g[1] + 1][g[2] + 1] IN
                          IF h = {} THEN x = 0 ELSE x \in h
       /\ \A i \in {Dom(p, d) : p \in R} :
             At(r.unpacked, i) \in {r.packed[p[d + 1] + 1][p[d + 2] + 1] : p \in {p \in R : Dom(p, d) = i}}
RECURSIVE Compose(_, _)
Compose(R, seq) == IF seq = <<>> THEN R
    ELSE LET S == Rng(Head(seq)[1]) d == Head(seq)[2]
             by == TLCEval([x \in {Dom(p, d) : p \in S} |-> {Ran(p, d) : p \in {p \in S : Dom(p, d) = x}}])
             k(p) == Len(p) - d
         IN Compose(TLCEval(UNION {LET x == SubSeq(p, 5, Len(p)) IN
                IF x \in DOMAIN by THEN {SubSeq(p, 1, 4) \o y : y \in by[x]} ELSE {} : p \in R}), Tail(seq))
Conforms(r) ==
    IF HasK(r, "crash") THEN FALSE
    ELSE IF HasK(r, "failed") THEN FALSE
    ELSE IF r.e.k = "conv2cseq" THEN
         LET R0 == ConvRel(r.e.filter, r.e.data, r.e.strides, r.e.pad)
             oh == OutSize(r.e.data[3], r.e.filter[3], r.e.strides[1], r.e.pad)
             ow == OutSize(r.e.data[4], r.e.filter[4], r.e.strides[2], r.e.pad)
             ty == ExpandedType(r.e.filter, r.e.data, r.e.strides, r.e.pad)
             R == TLCEval(IF r.e.inter THEN Interchange(R0, LAMBDA i : Shuffle2(i, r.e.filter[1], oh, ow, r.e.strides[1])) ELSE R0)
             D == Diagonalize(R, r.e.n, ty[1], ty[2])
             first == Rng(r.seq[1])
             got == Compose(first, [i \in 1..(Len(r.seq) - 1) |-> <<r.seq[i + 1], r.nd[i + 1]>>])
         IN got = D
    ELSE
    LET R == TLCEval(Rel(r.e)) d == ND(r.e) q == r.q IN
    /\ r.dr[1] = d
    /\ HasK(r, "type") => r.type = ExpandedType(r.e.filter, r.e.data, r.e.strides, r.e.pad)
    /\ HasK(r, "pts") => Set(r.pts) = R /\ NoDup(r.pts)
    /\ HasK(r, "in") => Set(r.in) = {p \in R : \A i \in DOMAIN p : p[i] >= q.lo[i] /\ p[i] <= q.hi[i]}
    /\ HasK(r, "range") => Set(r.range) = RanSet(R, d) /\ NoDup(r.range)
    /\ HasK(r, "any") => IF R = {} THEN r.any = <<>> ELSE r.any \in RanSet(R, d)
    /\ HasK(r, "comp") => LET hit == {p[d + 1] : p \in R} IN
                          /\ Set(r.comp) = {<<c>> : c \in (0..(q.comp[1] - 1)) \ hit}
                          /\ \A i \in 1..(Len(r.comp) - 1) : r.comp[i][1] < r.comp[i + 1][1]
    /\ HasK(r, "size") => r.size = Cardinality(R)
    /\ HasK(r, "dense") => r.dense = (RanSet(R, d) = Idx(q.dense))
    /\ HasK(r, "rm") => RecOK(r, R)
    /\ HasK(r, "cd") => (r.cd => R = Rel([k |-> "convdiag", filter |-> q.crec.filter, data |-> q.crec.data, pad |-> q.crec.pad, n |-> q.crec.n]))
    /\ HasK(r, "eq") => LET R2 == TLCEval(Rel(q.eq)) IN
                        /\ Set(r.pts2) = R2
                        /\ r.eq => R = R2
                        /\ (HasK(q, "vol") /\ r.uneq) => R # R2
                        /\ (q.eq = r.e) => r.eq
    /\ HasK(r, "cpts") => Set(r.cpts) = R /\ NoDup(r.cpts)
    /\ HasK(r, "cfail") => FALSE
    /\ HasK(r, "packed") => EvalOK(r, R)
=============================================================================
