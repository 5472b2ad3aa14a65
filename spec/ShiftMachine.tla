---------------------------- MODULE ShiftMachine ----------------------------
EXTENDS ShiftNet
CONSTANTS VSize, Orders
VARIABLES map, grp, order, cell, r
mvars == <<map, grp, order, cell, r>>
Sl == 0..(VSize - 1)
MInit ==
  /\ \E D \in SUBSET Sl : map \in [D -> Sl]
  /\ order \in Orders
  /\ grp \in SUBSET {map[t] : t \in DOMAIN map}
  /\ grp # {}
  /\ CollisionFree(Pairs(map, grp, VSize), order, VSize)
  /\ cell = [p \in Sl |-> [s \in Sl |-> IF s = p THEN 1 ELSE 0]]
  /\ r = 0
MNext ==
  /\ r < Len(order)
  /\ LET amt == order[r + 1]
         P == Pairs(map, grp, VSize)
         rot == {Pos(x[1], x[2], order, r, VSize) : x \in {y \in P : BitSet(y[2], amt)}}
         fix == {Pos(x[1], x[2], order, r, VSize) : x \in {y \in P : ~BitSet(y[2], amt)}}
     IN cell' = [p \in Sl |-> [s \in Sl |-> (IF p \in fix THEN cell[p][s] ELSE 0)
                                            + (IF ((p + amt) % VSize) \in rot THEN cell[(p + amt) % VSize][s] ELSE 0)]]
  /\ r' = r + 1
  /\ UNCHANGED <<map, grp, order>>
MSpec == MInit /\ [][MNext]_mvars
Applied ==
  (r = Len(order) /\ r > 0) =>
    \A p \in Sl : \A s \in Sl :
      cell[p][s] = IF p \in DOMAIN map /\ map[p] = s /\ s \in grp THEN 1 ELSE 0

=============================================================================
