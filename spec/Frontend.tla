------------------------------ MODULE Frontend ------------------------------
(***************************************************************************)
(* The Python frontend: an interpreter of Python functions (assignments,   *)
(* counted loops, conditionals, integer, boolean, float and elementwise    *)
(* tensor arithmetic) with Python's own meaning of every operator, against *)
(* the program the frontend emits for the function, run on the machine,    *)
(* and against CPython.                                                    *)
(*                                                                         *)
(* A function means something to its user on the inputs for which no       *)
(* intermediate integer leaves the width its operands have: a value knows  *)
(* that width.  Parameters have the annotated width, a literal the         *)
(* smallest that holds it, a result that of its wider operand.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
M == INSTANCE Programs

Big == 30000000
Undef == [k |-> FALSE, t |-> "i", w |-> 0, lit |-> FALSE, v |-> <<>>]
Val(t, w, lit, v) == [k |-> TRUE, t |-> t, w |-> w, lit |-> lit, v |-> v]

\* floats hold these integers exactly
Bound(w) == IF w = 8 THEN 128 ELSE IF w = 16 THEN 32768 ELSE IF w = 24 THEN 16777216 ELSE Big
Fits(w, x) == -Bound(w) <= x /\ x < Bound(w)
Smallest(x) == IF Fits(8, x) THEN 8 ELSE IF Fits(16, x) THEN 16 ELSE 32
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
AbsV(a) == IF a < 0 THEN -a ELSE a

RECURSIVE Pw(_)
Pw(n) == IF n = 0 THEN 1 ELSE 2 * Pw(n - 1)
FloorDiv(a, b) == IF b < 0 THEN (-a) \div (-b) ELSE a \div b
PyMod(a, b) == a - b * FloorDiv(a, b)
RECURSIVE Bits(_, _, _, _)
\* two's complement of unbounded length: n digits decide numbers of n bits
Bits(op, a, b, n) ==
  IF n = 0 THEN LET x == a < 0 y == b < 0
                IN IF (op = "&" /\ x /\ y) \/ (op = "|" /\ (x \/ y)) \/ (op = "^" /\ x # y) THEN -1 ELSE 0
  ELSE LET p == a % 2 q == b % 2
           d == IF op = "&" THEN p * q ELSE IF op = "|" THEN Max2(p, q) ELSE (p + q) % 2
       IN d + 2 * Bits(op, a \div 2, b \div 2, n - 1)

\* whether Python defines the operation, and its value fits the specification
Ok(op, a, b) ==
  /\ op = "*" => a = 0 \/ AbsV(b) <= Big \div AbsV(a)
  /\ op \in {"//", "%"} => b # 0
  /\ op \in {"<<", ">>"} => b >= 0 /\ b < 24
  /\ op = "<<" => AbsV(a) <= Big \div Pw(b)
Num(op, a, b) ==
  CASE op = "+" -> a + b
    [] op = "-" -> a - b
    [] op = "*" -> a * b
    [] op = "//" -> FloorDiv(a, b)
    [] op = "%" -> PyMod(a, b)
    [] op = "<<" -> a * Pw(b)
    [] op = ">>" -> a \div Pw(b)
    [] op \in {"&", "|", "^"} -> Bits(op, a, b, 26)
Truth(op, a, b) ==
  LET z == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b
             [] op = ">=" -> a >= b [] op = "==" -> a = b [] op = "!=" -> a # b
  IN IF z THEN 1 ELSE 0

Wid(x) == IF x.t = "b" THEN 1 ELSE x.w
Binary(op, x, y) ==
  IF ~x.k \/ ~y.k \/ Len(x.v) # Len(y.v) THEN Undef
  ELSE LET fl == x.t = "f" \/ y.t = "f"
           lit == x.lit /\ y.lit
           w0 == Max2(Wid(x), Wid(y))
       IN IF fl /\ (x.t # y.t \/ op \notin {"+", "-", "*"}) THEN Undef
          ELSE IF \E i \in 1..Len(x.v) : ~Ok(op, x.v[i], y.v[i]) THEN Undef
          ELSE LET r == TLCEval([i \in 1..Len(x.v) |-> Num(op, x.v[i], y.v[i])])
                   bb == x.t = "b" /\ y.t = "b" /\ op \in {"&", "|", "^"}
                   w == IF lit THEN Smallest(r[1]) ELSE Max2(8, w0)
               IN IF bb THEN Val("b", 1, FALSE, r)
                  ELSE IF \E i \in 1..Len(r) : ~Fits(IF fl THEN 24 ELSE w, r[i]) THEN Undef
                  ELSE IF op \in {"<<", ">>"} /\ ~lit /\ \E i \in 1..Len(r) : y.v[i] >= w THEN Undef
                  ELSE Val(x.t, w, lit, r)
Compare(op, x, y) ==
  IF ~x.k \/ ~y.k \/ (x.t = "f") # (y.t = "f") \/ Len(x.v) # 1 \/ Len(y.v) # 1 THEN Undef
  ELSE Val("b", 1, FALSE, <<Truth(op, x.v[1], y.v[1])>>)
Cast(w, x) ==
  IF ~x.k \/ Len(x.v) # 1 THEN Undef
  ELSE IF w = 0 THEN Val("f", 0, FALSE, x.v)
  ELSE IF w = 1 THEN IF x.v[1] \in {0, 1} THEN Val("b", 1, FALSE, x.v) ELSE Undef
  ELSE IF Fits(w, x.v[1]) THEN Val("i", w, FALSE, x.v) ELSE Undef

RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e.k = "var" -> IF e.n \in DOMAIN env THEN env[e.n] ELSE Undef
    [] e.k = "lit" -> Val("i", Smallest(e.v), TRUE, <<e.v>>)
    [] e.k = "flit" -> Val("f", 0, FALSE, <<e.v>>)
    [] e.k = "bin" -> Binary(e.op, Eval(e.a, env), Eval(e.b, env))
    [] e.k = "cmp" -> Compare(e.op, Eval(e.a, env), Eval(e.b, env))
    [] e.k = "cast" -> Cast(e.w, Eval(e.a, env))

Bind(env, n, x) == [m \in DOMAIN env \cup {n} |-> IF m = n THEN x ELSE env[m]]

\* k: still defined; done: returned; ret: what
RECURSIVE Exec(_, _, _), Loop(_, _, _, _, _)
St(k, done, ret, env) == [k |-> k, done |-> done, ret |-> ret, env |-> env]
Loop(s, f, i, hi, st) ==
  IF ~st.k \/ st.done \/ (IF f > 0 THEN i >= hi ELSE i <= hi) THEN st
  ELSE LET e == TLCEval(Bind(st.env, s.n, Val("i", 32, FALSE, <<i>>)))
       IN Loop(s, f, i + f, hi, TLCEval(Exec(s.body, 1, e)))
Exec(b, n, env) ==
  IF n > Len(b) THEN St(TRUE, FALSE, <<>>, env)
  ELSE LET s == b[n] IN
  CASE s.k = "set" ->
         LET x == TLCEval(Eval(s.e, env))
         IN IF ~x.k THEN St(FALSE, TRUE, <<>>, env)
            ELSE Exec(b, n + 1, TLCEval(Bind(env, s.n, IF s.once THEN x ELSE [x EXCEPT !.lit = FALSE])))
    [] s.k = "ret" -> LET x == TLCEval(Eval(s.e, env)) IN St(x.k, TRUE, x, env)
    [] s.k = "if" ->
         LET c == TLCEval(Eval(s.c, env))
         IN IF ~c.k THEN St(FALSE, TRUE, <<>>, env)
            ELSE LET z == TLCEval(Exec(IF c.v[1] # 0 THEN s.a ELSE s.b, 1, env))
                 IN IF ~z.k \/ z.done THEN z ELSE Exec(b, n + 1, z.env)
    [] s.k = "for" ->
         LET l == TLCEval(Eval(s.lo, env)) h == TLCEval(Eval(s.hi, env)) f == TLCEval(Eval(s.st, env))
         IN IF ~l.k \/ ~h.k \/ ~f.k THEN St(FALSE, TRUE, <<>>, env)
            ELSE IF f.v[1] = 0 THEN St(FALSE, TRUE, <<>>, env)
            ELSE LET z == TLCEval(Loop(s, f.v[1], l.v[1], h.v[1], St(TRUE, FALSE, <<>>, env)))
                 IN IF ~z.k \/ z.done THEN z ELSE Exec(b, n + 1, z.env)

\* r.params: sequence of [n, t, w]; input: one sequence of numbers per parameter
PyRun(r, inp) ==
  Exec(r.body, 1,
       TLCEval([n \in {r.params[i].n : i \in 1..Len(r.params)} |->
          LET i == CHOOSE i \in 1..Len(r.params) : r.params[i].n = n
          IN Val(r.params[i].t, r.params[i].w, FALSE, inp[i])]))

\* the machine keeps scalars as numbers, tensors as sequences
Means(x, got) == got = (IF Len(x.v) = 1 THEN x.v[1] ELSE x.v)

\* the emitted signature: annotated secrecy and shape, at least the annotated width
Declared(d, s) == /\ Len(d) = Len(s)
                  /\ \A i \in 1..Len(d) : /\ d[i].secret = s[i].secret /\ d[i].sh = s[i].sh
                                          /\ d[i].t = s[i].t /\ s[i].w >= d[i].w

Conforms(r) ==
  /\ Declared(r.declared, r.sig)
  /\ \A i \in 1..Len(r.inputs) :
       LET z == TLCEval(PyRun(r, r.inputs[i]))
       IN (z.k /\ z.done) =>
            /\ r.py[i] # <<>> => r.py[i] = z.ret.v
            /\ LET o == TLCEval(M!Outcome(r.prog, r.minputs[i]))
               IN o.k /\ Len(o.r) = 1 /\ Means(z.ret, o.r[1])
Defined(r) == Cardinality({i \in 1..Len(r.inputs) : PyRun(r, r.inputs[i]).k})
=============================================================================
