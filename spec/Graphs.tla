------------------------------- MODULE Graphs -------------------------------
(* The directed graph as a state machine: state g = [v: vertices, e: edges];
   one action per public operation.  A recorded history conforms iff each of
   its steps is the action it names: same return value, same state afterwards
   (the whole observable state is logged).  Queries are pure functions of the
   state.  The undirected graph and its colouring follow.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE SetMax(_)
SetMax(S) == IF S = {} THEN -1 ELSE LET x == CHOOSE x \in S : TRUE IN Max2(x, SetMax(S \ {x}))
Empty == [v |-> {}, e |-> {}]
Succ(g, x) == {y \in g.v : <<x, y>> \in g.e}
Pred(g, x) == {y \in g.v : <<y, x>> \in g.e}
Sources(g) == {x \in g.v : Pred(g, x) = {}}
Sinks(g) == {x \in g.v : Succ(g, x) = {}}

RECURSIVE ReachFrom(_, _)
ReachFrom(g, S) == LET T == S \cup UNION {Succ(g, x) : x \in S} IN IF T = S THEN S ELSE ReachFrom(g, T)
Reach(g) == TLCEval([x \in g.v |-> ReachFrom(g, {x})])
RPlus(g, R, x) == UNION {R[y] : y \in Succ(g, x)}     \* reachable in >= 1 step
Acyclic(g, R) == \A x \in g.v : x \notin RPlus(g, R, x)
SCC(g, R, x) == {y \in g.v : y \in R[x] /\ x \in R[y]}
SCCs(g, R) == {SCC(g, R, x) : x \in g.v}

(* ---- actions: each returns [ret, g] ---- *)
DoV(g, x) == [ret |-> TRUE, g |-> [g EXCEPT !.v = @ \cup {x}]]
DoE(g, s, t) == IF s \in g.v /\ t \in g.v THEN [ret |-> TRUE, g |-> [g EXCEPT !.e = @ \cup {<<s, t>>}]]
                ELSE [ret |-> FALSE, g |-> g]
(* merging t into s keeps s, renames t to s on every other edge, and makes no
   new self loop; a loop s had already stays *)
Merged(g, s, t) ==
  LET f(x) == IF x = t THEN s ELSE x
      keep == {p \in g.e : p[1] # t /\ p[2] # t}
      moved == {<<f(p[1]), f(p[2])>> : p \in {p \in g.e : p[1] = t \/ p[2] = t}}
  IN [v |-> g.v \ {t}, e |-> keep \cup {p \in moved : p[1] # p[2]}]
DoContract(g, s, t) == IF <<s, t>> \in g.e THEN [ret |-> TRUE, g |-> Merged(g, s, t)] ELSE [ret |-> FALSE, g |-> g]

(* condensation: every component shrinks to one of its vertices *)
RECURSIVE MergeAll(_, _, _)
MergeAll(g, ms, i) == IF i > Len(ms) THEN [ok |-> TRUE, g |-> g]
  ELSE IF <<ms[i][1], ms[i][2]>> \notin g.e \/ ms[i][1] = ms[i][2] THEN [ok |-> FALSE, g |-> g]
  ELSE MergeAll(Merged(g, ms[i][1], ms[i][2]), ms, i + 1)

StateOf(o) == [v |-> Range(o.v), e |-> {<<o.e[i][1], o.e[i][2]>> : i \in 1..Len(o.e)}]
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i] < s[i + 1]
ObsOk(g, o, probe) ==
  /\ StateOf(o) = g /\ Len(o.v) = Cardinality(g.v) /\ Len(o.e) = Cardinality(g.e)
  /\ o.empty = (g.v = {})
  /\ \A i \in 1..Len(probe) : LET p == probe[i] IN
       /\ Range(o.out[i]) = Succ(g, p) \cap (IF p \in g.v THEN g.v ELSE {}) /\ Sorted(o.out[i])
       /\ Range(o.in[i]) = Pred(g, p) \cap (IF p \in g.v THEN g.v ELSE {}) /\ Sorted(o.in[i])
       /\ o.deg[i] = <<Cardinality(Pred(g, p)), Cardinality(Succ(g, p)), IF p \in g.v THEN 1 ELSE 0>>
       /\ \A j \in 1..Len(probe) : o.has[i][j] = IF <<p, probe[j]>> \in g.e THEN 1 ELSE 0

Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
TopoOk(g, s) == /\ Len(s) = Cardinality(g.v) /\ Range(s) = g.v
                /\ \A p \in g.e : Pos(s, p[1]) < Pos(s, p[2])
(* number of levels: peel the sources until nothing is left *)
RECURSIVE Peel(_)
Peel(g) == IF g.v = {} THEN 0 ELSE LET s == Sources(g) IN 1 + Peel([v |-> g.v \ s, e |-> {p \in g.e : p[1] \notin s}])
RECURSIVE SumLen(_, _)
SumLen(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + SumLen(s, i + 1)
LevelsOk(g, lv) ==
  LET n == Max2(1, Peel(g))
      L == TLCEval([x \in g.v |-> CHOOSE i \in 1..Len(lv) : x \in Range(lv[i])])
  IN /\ Len(lv) = n                                       \* as few levels as possible
     /\ UNION {Range(lv[i]) : i \in 1..Len(lv)} = g.v
     /\ SumLen(lv, 1) = Cardinality(g.v)                     \* each vertex once
     /\ \A p \in g.e : L[p[1]] < L[p[2]]
IsPath(g, s) == \A i \in 1..Len(s) - 1 : <<s[i], s[i + 1]>> \in g.e
Inf == 1000000
RECURSIVE Relax(_, _, _, _)
Relax(g, d, w, n) == IF n = 0 THEN d ELSE
  Relax(g, TLCEval([x \in g.v |-> LET c == {d[y] + w[y + 1][x + 1] : y \in Pred(g, x)} IN
              LET m == IF c = {} THEN Inf ELSE CHOOSE k \in c : \A j \in c : k <= j IN IF m < d[x] THEN m ELSE d[x]]), w, n - 1)
Dist(g, w, a) == Relax(g, [x \in g.v |-> IF x = a THEN 0 ELSE Inf], w, Cardinality(g.v))
RECURSIVE PathLen(_, _, _)
PathLen(s, w, i) == IF i >= Len(s) THEN 0 ELSE w[s[i] + 1][s[i + 1] + 1] + PathLen(s, w, i + 1)
PathsOk(g, probe, paths, w) ==
  \A i \in 1..Len(probe) : LET a == probe[i] IN LET d == IF a \in g.v THEN TLCEval(Dist(g, w, a)) ELSE <<>> IN
  \A j \in 1..Len(probe) : LET b == probe[j] IN LET p == paths[i][j] IN
       IF a \notin g.v \/ b \notin g.v THEN ~p.ok
       ELSE /\ p.ok = (d[b] < Inf)
            /\ p.ok => /\ p.r[1] = a /\ p.r[Len(p.r)] = b /\ IsPath(g, p.r)
                       /\ PathLen(p.r, w, 1) = d[b]
Ones(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> 1]])

QueryOk(g, o, probe, wt) ==
  LET R == Reach(g)
      ac == Acyclic(g, R)
      N == SetMax(g.v) + 1
      got == {Range(o.scc[i]) : i \in 1..Len(o.scc)}
      Interior == g.v \ (Sources(g) \cup Sinks(g))
  IN /\ got = SCCs(g, R) /\ Len(o.scc) = Cardinality(got)
     /\ \A i \in 1..Len(o.scc) : Len(o.scc[i]) = Cardinality(Range(o.scc[i]))
     /\ o.topo.ok = ac /\ (ac => TopoOk(g, o.topo.r))
     /\ o.levels.ok = ac /\ (ac => LevelsOk(g, o.levels.r))
     /\ Range(o.src) = Sources(g) /\ Range(o.snk) = Sinks(g)
     /\ PathsOk(g, probe, o.sp, Ones(Max2(N, 1)))
     /\ wt # <<>> => PathsOk(g, probe, o.wp, wt)
     (* the approximate critical path: interior vertices and one sink, in order *)
     /\ o.crit.ok = ac
     /\ ac => LET s == o.crit.r IN
              IF Cardinality(g.v) < 3 THEN TopoOk(g, s)
              ELSE /\ s[Len(s)] \in Sinks(g) /\ Interior \subseteq Range(s)
                   /\ Range(s) \subseteq g.v
                   /\ \A i, j \in 1..Len(s) : <<s[i], s[j]>> \in g.e => i < j
     (* the longest of the shortest source-to-sink paths *)
     /\ o.longest.ok
     /\ LET ps == {<<a, b>> \in Sources(g) \X Sinks(g) : a # b /\ b \in R[a]}
            D == TLCEval([a \in Sources(g) |-> Dist(g, Ones(Max2(N, 1)), a)])
            s == o.longest.r
        IN IF ps = {} THEN s = <<>>
           ELSE /\ IsPath(g, s) /\ <<s[1], s[Len(s)]>> \in ps
                /\ Len(s) = 1 + D[s[1]][s[Len(s)]]
                /\ \A p \in ps : D[p[1]][p[2]] < Len(s)

CondenseOk(g, g2, ms) ==
  LET R == Reach(g) IN
  LET m == MergeAll(g, ms, 1) IN
    /\ m.ok /\ m.g = g2
    /\ \A i \in 1..Len(ms) : ms[i][1] \in SCC(g, R, ms[i][2])
    /\ \A c \in SCCs(g, R) : Cardinality(c \cap g2.v) = 1
    /\ LET R2 == Reach(g2) IN \A x \in g2.v : SCC(g2, R2, x) = {x}

(* one step of a recorded history *)
StepOk(g, op, s, probe, wt) ==
  LET g2 == StateOf(s.obs)
      exp == CASE op[1] = "v" -> DoV(g, op[2])
               [] op[1] \in {"e", "w"} -> DoE(g, op[2], op[3])
               [] op[1] \in {"contract", "contract0"} -> DoContract(g, op[2], op[3])
               [] OTHER -> [ret |-> TRUE, g |-> IF op[1] = "obs" THEN g ELSE g2]
  IN /\ s.ret = exp.ret /\ g2 = exp.g /\ ObsOk(g2, s.obs, probe)
     /\ op[1] = "condense" => CondenseOk(g, g2, s.merges)
     /\ op[1] = "contract" => s.merges = (IF exp.ret THEN <<<<op[2], op[3]>>>> ELSE <<>>)
     /\ op[1] = "obs" => QueryOk(g, s, probe, wt)
RECURSIVE History(_, _, _, _, _)
History(g, ops, steps, i, r) ==
  IF i > Len(ops) THEN TRUE
  ELSE StepOk(g, ops[i], steps[i], r.probe, r.wt) /\ History(StateOf(steps[i].obs), ops, steps, i + 1, r)

(* ---- undirected graph and colouring ---- *)
UAdj(E, x) == {y[1] : y \in {p \in E : p[2] = x}} \cup {y[2] : y \in {p \in E : p[1] = x}}
RECURSIVE TwoCol(_, _, _, _)
TwoCol(E, A, Bs, todo) ==      \* breadth-first two-colouring; todo: uncoloured
  LET nA == UNION {UAdj(E, x) : x \in A} IN LET nB == UNION {UAdj(E, x) : x \in Bs} IN
  IF (A \cup nB) \cap (Bs \cup nA) # {} THEN FALSE
  ELSE IF nA \subseteq Bs /\ nB \subseteq A
       THEN LET t == todo \ (A \cup Bs) IN IF t = {} THEN TRUE ELSE TwoCol(E, A \cup {CHOOSE x \in t : TRUE}, Bs, t)
       ELSE TwoCol(E, A \cup nB, Bs \cup nA, todo)
Bipartite(V, E) == TwoCol(E, {}, {}, V)
ColorOk(gr, o, probe) ==
  LET V == Range(gr.v)
      E == {<<gr.e[i][1], gr.e[i][2]>> : i \in {i \in 1..Len(gr.e) : gr.e[i][1] \in V /\ gr.e[i][2] \in V}}
      C == TLCEval([x \in V |-> LET i == CHOOSE i \in 1..Len(o.color) : o.color[i][1] = x IN o.color[i][2]])
      used == {C[x] : x \in V}
  IN /\ Range(o.v) = V /\ o.empty = (V = {})
     /\ \A i \in 1..Len(gr.e) : o.acc[i] = (gr.e[i][1] \in V /\ gr.e[i][2] \in V)
     /\ \A i \in 1..Len(probe) : /\ Range(o.inc[i]) = (IF probe[i] \in V THEN UAdj(E, probe[i]) ELSE {}) /\ Sorted(o.inc[i])
                                 /\ \A j \in 1..Len(probe) : o.has[i][j] = IF <<probe[i], probe[j]>> \in E \/ <<probe[j], probe[i]>> \in E THEN 1 ELSE 0
     /\ Len(o.color) = Cardinality(V) /\ {o.color[i][1] : i \in 1..Len(o.color)} = V
     /\ \A x \in V : C[x] >= 0
     /\ \A p \in E : p[1] # p[2] => C[p[1]] # C[p[2]]                      \* proper
     (* greedy: every smaller colour is taken by a neighbour *)
     /\ \A x \in V : \A k \in 0..C[x] - 1 : \E y \in UAdj(E, x) : C[y] = k
     /\ (\A p \in E : p[1] # p[2]) /\ Bipartite(V, E) => Cardinality(used) <= 2   \* saturation order is optimal there

Conforms(r) ==
  IF "crash" \in DOMAIN r THEN FALSE
  ELSE CASE r.t = "hist" -> Len(r.steps) = Len(r.ops) /\ History(Empty, r.ops, r.steps, 1, r)
         [] r.t = "color" -> \A i \in 1..Len(r.graphs) : ColorOk(r.graphs[i], r.res[i], r.probe)
=============================================================================
