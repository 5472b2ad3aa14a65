------------------------------ MODULE ShiftNet ------------------------------
(***************************************************************************)
(* Permuting (and replicating) slots with power-of-two rotations.          *)
(*                                                                         *)
(* The machine (ShiftMachine.tla): a group of source slots travels through the        *)
(* rounds; in every round the slots whose remaining shift has the round's  *)
(* bit are masked out, rotated left and added to the masked rest.  TLC     *)
(* checks for every mapping of a small virtual ciphertext and every group  *)
(* that is free of collisions that the machine ends with exactly the       *)
(* mapping applied.  Conforms binds the code to that machine.              *)
(***************************************************************************)
EXTENDS ArithDag

Powers(n) == LET RECURSIVE h(_) h(p) == IF p >= n THEN <<>> ELSE <<p>> \o h(2 * p) IN h(1)
Shift(s, t, n) == (s - t) % n
BitSet(sh, amt) == (sh \div amt) % 2 = 1
Moved(p, amt, sh, n) == IF BitSet(sh, amt) THEN (p - amt) % n ELSE p
\* where the slot sits after the first r rounds of an order
Pos(s, sh, order, r, n) == FoldLeft(LAMBDA p, j : Moved(p, order[j], sh, n), s, [j \in 1..r |-> j])

\* travelling pairs <<source, shift>> of a group
Pairs(map, grp, n) == {<<map[t], Shift(map[t], t, n)>> : t \in {x \in DOMAIN map : map[x] \in grp}}
CollisionFree(pairs, order, n) ==
  \A r \in 1..Len(order) :
    \A a, b \in pairs : a[1] # b[1] => Pos(a[1], a[2], order, r, n) # Pos(b[1], b[2], order, r, n)

(***************************************************************************)
(* Records of the code                                                     *)
(***************************************************************************)
Flat(rec, ct, sl) == ct * rec.n + sl
Virt(rec) == rec.n * rec.cts

\* the mapping kept: every target once, with a nearest one of the sources offered
Dist(rec, e) == LET a == e[1] - e[3] b == e[2] - e[4]
                IN (IF a < 0 THEN -a ELSE a) * rec.n + (IF b < 0 THEN -b ELSE b)
MapOk(rec) ==
  /\ rec.size = Len(rec.map)
  /\ \A i, j \in 1..Len(rec.map) : i # j => <<rec.map[i][3], rec.map[i][4]>> # <<rec.map[j][3], rec.map[j][4]>>
  /\ {<<e[3], e[4]>> : e \in Range(rec.map)} = {<<e[3], e[4]>> : e \in Range(rec.adds)}
  /\ \A e \in Range(rec.map) :
       /\ e \in Range(rec.adds)
       /\ \A f \in Range(rec.adds) : (f[3] = e[3] /\ f[4] = e[4]) => Dist(rec, e) <= Dist(rec, f)

\* the mapping kept, over virtual slots: target -> source
VMap(rec) ==
  LET T == {Flat(rec, e[3], e[4]) : e \in Range(rec.map)}
  IN [t \in T |-> LET e == CHOOSE x \in Range(rec.map) : Flat(rec, x[3], x[4]) = t IN Flat(rec, e[1], e[2])]

StrategyOk(rec) ==
  LET m == TLCEval(VMap(rec))
      n == Virt(rec)
      ord == rec.ord
      P == TLCEval(Pairs(m, Range(m), n))
  IN /\ Len(rec.rounds) = Len(ord) + 1
     /\ \A q \in 0..Len(ord) :
          LET R == rec.rounds[q + 1]
              want == {<<x[1], x[2], Pos(x[1], x[2], ord, q, n)>> : x \in P}
          IN /\ R.a = IF q = 0 THEN 0 ELSE ord[q]
             /\ {<<Flat(rec, p[1], p[2]), p[3], Flat(rec, p[4], p[5])>> : p \in Range(R.p)} = want
             /\ Len(R.p) = Cardinality(want)
     \* every slot arrives
     /\ \A t \in DOMAIN m : Pos(m[t], Shift(m[t], t, n), ord, Len(ord), n) = t

NetOk(rec) ==
  LET m == TLCEval(VMap(rec))
      n == Virt(rec)
      ord == Tail(rec.amounts)
      g == [k \in 1..Len(rec.groups) |-> {Flat(rec, s[1], s[2]) : s \in Range(rec.groups[k])}]
      out == TLCEval(EvalDag(rec.dag))
      In(p) == rec.in[(p \div rec.n) + 1][(p % rec.n) + 1]
  IN /\ rec.amounts[1] = 0
     /\ {Powers(n)[k] : k \in 1..Len(Powers(n))} = Range(ord) /\ Len(ord) = Len(Powers(n))
     /\ (Len(rec.order) > 0 /\ rec.tries = 0) => ord = rec.order
     \* the groups split the sources, and travel without colliding
     /\ UNION {g[k] : k \in 1..Len(g)} = Range(m)
     /\ \A k, l \in 1..Len(g) : k < l => g[k] \cap g[l] = {}
     /\ \A k \in 1..Len(g) : CollisionFree(TLCEval(Pairs(m, g[k], n)), ord, n)
     \* the network moves every mapped slot and nothing else
     /\ Len(out) = rec.cts
     /\ \A p \in 0..(n - 1) :
          LET o == First(out[(p \div rec.n) + 1])
              v == IF o.k = 1 THEN o.v[(p % rec.n) + 1] ELSE o.v[1][(p % rec.n) + 1]
          IN v = IF p \in DOMAIN m THEN In(m[p]) ELSE 0

Conforms(rec) ==
  IF "crash" \in DOMAIN rec THEN FALSE
  ELSE CASE rec.t = "order" -> rec.r = Powers(rec.n)
         [] rec.t = "strategy" -> MapOk(rec) /\ StrategyOk(rec)
         [] rec.t = "net" -> MapOk(rec) /\ NetOk(rec)
=============================================================================
