------------------------------ MODULE ArithDag ------------------------------
(***************************************************************************)
(* What an arithmetic DAG of the kernel library denotes.                   *)
(*                                                                         *)
(* A DAG is a sequence of nodes dag.n in an order in which every node      *)
(* follows the nodes it always needs, dag.s the nodes evaluated            *)
(* unconditionally, dag.r its roots.  A value is [k, v]: rank k in 0..2    *)
(* with v an integer, a sequence or a sequence of rows; a node with        *)
(* several results (yield, loop) has rank -1 and a sequence of values.     *)
(* The machine state while a DAG runs is the map node -> value.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Sc(x) == [k |-> 0, v |-> x]
Vec(x) == [k |-> 1, v |-> x]
Mat(x) == [k |-> 2, v |-> x]

RotL(x, a) == [j \in 1..Len(x) |-> x[((j - 1 + a) % Len(x)) + 1]]

RECURSIVE IPow(_, _)
IPow(b, n) == IF n = 0 THEN 1 ELSE b * IPow(b, n - 1)

Bin2(Op(_, _), a, b) ==
  IF a.k = 0 /\ b.k = 0 THEN Sc(Op(a.v, b.v))
  ELSE Vec([j \in 1..Len(a.v) |-> Op(a.v[j], b.v[j])])
Un1(Op(_), a) == IF a.k = 0 THEN Sc(Op(a.v)) ELSE Vec([j \in 1..Len(a.v) |-> Op(a.v[j])])

Fill(sh, x) ==
  CASE Len(sh) = 0 -> Sc(x)
    [] Len(sh) = 1 -> Vec([j \in 1..sh[1] |-> x])
    [] OTHER -> Mat([a \in 1..sh[1] |-> [j \in 1..sh[2] |-> x]])

CmpB(f, a, b) ==
  LET t == CASE f = "lt" -> a < b [] f = "le" -> a <= b [] f = "gt" -> a > b
             [] f = "ge" -> a >= b [] f = "eq" -> a = b [] OTHER -> a # b
  IN IF t THEN 1 ELSE 0

First(x) == IF x.k = -1 THEN x.v[1] ELSE x

RECURSIVE RunSeq(_, _, _), RunNode(_, _, _)
RunSeq(D, seq, e) == FoldLeft(LAMBDA acc, n : RunNode(D, n, acc), e, seq)

RunNode(D, n, e) ==
  LET x == D[n]
      in(j) == First(e[x.i[j]])
      put(v) == [e EXCEPT ![n] = v]
  IN CASE x.o = "const" -> put(Sc(x.v))
       [] x.o = "ctensor" -> put(Vec(x.v))
       [] x.o = "splat" -> put(Fill(x.sh, x.v))
       [] x.o = "empty" -> put(Fill(x.sh, 0))
       [] x.o = "leaf" -> put(x.v)
       [] x.o = "var" -> e
       [] x.o = "add" -> put(Bin2(LAMBDA a, b : a + b, in(1), in(2)))
       [] x.o = "sub" -> put(Bin2(LAMBDA a, b : a - b, in(1), in(2)))
       [] x.o = "mul" -> put(Bin2(LAMBDA a, b : a * b, in(1), in(2)))
       [] x.o = "fdiv" -> put(Un1(LAMBDA a : a \div x.k, in(1)))
       [] x.o = "pow" -> put(Un1(LAMBDA a : IPow(a, x.k), in(1)))
       [] x.o = "rot" -> put(Vec(RotL(in(1).v, in(2).v)))
       [] x.o = "ext" -> put(IF in(1).k = 2 THEN Vec(in(1).v[in(2).v + 1]) ELSE Sc(in(1).v[in(2).v + 1]))
       [] x.o = "ins" -> put([k |-> in(2).k, v |-> [in(2).v EXCEPT ![in(3).v + 1] = in(1).v]])
       [] x.o = "cmp" -> put(Sc(CmpB(x.f, in(1).v, in(2).v)))
       [] x.o = "yield" -> put([k |-> -1, v |-> [j \in 1..Len(x.i) |-> in(j)]])
       [] x.o = "res" -> put(IF e[x.i[1]].k = -1 THEN e[x.i[1]].v[x.k] ELSE e[x.i[1]])
       [] x.o = "ite" ->
            IF in(1).v # 0 THEN LET t == RunSeq(D, x.T, e) IN [e EXCEPT ![n] = t[x.t]]
            ELSE LET t == RunSeq(D, x.E, e) IN [e EXCEPT ![n] = t[x.e]]
       [] x.o = "for" ->
            LET trips == IF x.up > x.lo THEN (x.up - x.lo + x.st - 1) \div x.st ELSE 0
                step(vals, q) ==
                  LET e1 == FoldLeft(LAMBDA acc, j : [acc EXCEPT ![x.args[j]] = vals[j]],
                                     [e EXCEPT ![x.iv] = Sc(x.lo + q * x.st)], [j \in 1..Len(x.args) |-> j])
                  IN RunSeq(D, x.B, e1)[x.b].v
            IN put([k |-> -1, v |-> FoldLeft(step, [j \in 1..Len(x.i) |-> in(j)], [q \in 1..trips |-> q - 1])])

Final(dag) == RunSeq(dag.n, dag.s, [j \in 1..Len(dag.n) |-> Sc(0)])
EvalDag(dag) == LET e == Final(dag) IN [j \in 1..Len(dag.r) |-> e[dag.r[j]]]
Eval1(dag) == First(EvalDag(dag)[1])

(***************************************************************************)
(* The ciphertext rotations a run performs: every rotation node executed   *)
(* on a value that depends on a secret leaf, once per execution, a shared  *)
(* node once.  Secret status is a property of the node.                    *)
(***************************************************************************)
RECURSIVE Secrets(_, _, _)
Secrets(D, seq, S) ==
  FoldLeft(LAMBDA acc, n :
    LET x == D[n]
        sub == IF x.o = "ite" THEN Secrets(D, x.E, Secrets(D, x.T, acc))
               ELSE IF x.o = "for" THEN Secrets(D, x.B, acc) ELSE acc
        s == CASE x.o = "leaf" -> x.v.secret = 1
               [] x.o = "ite" -> x.i[1] \in sub \/ x.t \in sub \/ x.e \in sub
               [] x.o = "for" -> x.b \in sub \/ \E j \in 1..Len(x.i) : x.i[j] \in sub
               [] x.o \in {"rot", "rotb", "ext"} -> x.i[1] \in sub
               [] x.o = "ins" -> x.i[1] \in sub \/ x.i[2] \in sub
               [] x.o \in {"const", "ctensor", "splat", "empty", "var"} -> FALSE
               [] OTHER -> \E j \in 1..Len(x.i) : x.i[j] \in sub
    IN IF s THEN sub \cup {n} ELSE sub, S, seq)

RotNodes(D, S, seq) == {n \in Range(seq) : D[n].o \in {"rot", "rotb"} /\ D[n].i[1] \in S}
NRot(x) == IF x.o = "rotb" THEN Len(x.i) - 1 ELSE 1
SumOver(S, Op(_)) == FoldFunction(LAMBDA a, acc : a + acc, 0, [n \in S |-> Op(n)])
Straight(dag) == \A j \in 1..Len(dag.n) : dag.n[j].o \notin {"for", "ite"}
StraightRotations(dag) ==
  SumOver(RotNodes(dag.n, Secrets(dag.n, dag.s, {}), dag.s), LAMBDA n : NRot(dag.n[n]))

\* the normalized shifts a run asks for, whatever is rotated
RECURSIVE Shifts(_, _, _)
ShiftOf(x, e, j) == LET m == IF First(e[x.i[1]]).k = 2 THEN Len(First(e[x.i[1]]).v[1]) ELSE Len(First(e[x.i[1]]).v)
                    IN First(e[x.i[j]]).v % m
\* state of the shift recorder: [e |-> node values, h |-> shifts so far]
Shifts(D, seq, s) ==
  FoldLeft(LAMBDA acc, n :
    LET x == D[n] IN
    CASE x.o = "ite" ->
           LET c == First(acc.e[x.i[1]]).v
               t == Shifts(D, IF c # 0 THEN x.T ELSE x.E, acc)
           IN [h |-> t.h, e |-> [acc.e EXCEPT ![n] = t.e[IF c # 0 THEN x.t ELSE x.e]]]
      [] x.o = "for" ->
           LET trips == IF x.up > x.lo THEN (x.up - x.lo + x.st - 1) \div x.st ELSE 0
               step(st, q) ==
                 LET e1 == FoldLeft(LAMBDA a, j : [a EXCEPT ![x.args[j]] = st.v[j]],
                                    [acc.e EXCEPT ![x.iv] = Sc(x.lo + q * x.st)], [j \in 1..Len(x.args) |-> j])
                     r == Shifts(D, x.B, [e |-> e1, h |-> st.h])
                 IN [v |-> r.e[x.b].v, h |-> r.h]
               fin == FoldLeft(step, [v |-> [j \in 1..Len(x.i) |-> First(acc.e[x.i[j]])], h |-> acc.h], [q \in 1..trips |-> q - 1])
           IN [h |-> fin.h, e |-> [acc.e EXCEPT ![n] = [k |-> -1, v |-> fin.v]]]
      [] x.o \in {"rot", "rotb"} ->
           [h |-> acc.h \cup {ShiftOf(x, acc.e, j) : j \in 2..Len(x.i)},
            e |-> IF x.o = "rot" /\ First(acc.e[x.i[1]]).k = 1 THEN RunNode(D, n, acc.e)
                  ELSE [acc.e EXCEPT ![n] = First(acc.e[x.i[1]])]]
      [] OTHER -> [acc EXCEPT !.e = RunNode(D, n, acc.e)], s, seq)
AllShifts(dag) == Shifts(dag.n, dag.s, [e |-> [j \in 1..Len(dag.n) |-> Sc(0)], h |-> {}]).h
=============================================================================
