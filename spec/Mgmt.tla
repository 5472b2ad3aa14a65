------------------------------- MODULE Mgmt -------------------------------
(***************************************************************************)
(* Ciphertext management.  Every value that is encrypted (or encoded to    *)
(* meet an encrypted one) has a type <<level, dimension, scale>>; scale -1 *)
(* is a scale not chosen yet.  This module is the type system: how each    *)
(* operation relates the types of its operands and results.  CipherMachine *)
(* shows that well typed programs decrypt to what the clear program        *)
(* computes.                                                               *)
(*                                                                         *)
(* A record has: .body (operations), .an (the type of each value or <<>>), *)
(* .pl values that are encoded plaintexts, .con constants, .sch ("bgv", "bfv", "ckks"),  *)
(* .t (plaintext modulus, 0 if scales are not chosen), .q (the moduli by   *)
(* level: modulo t for bgv, rounded logarithms for ckks), .lim (the most   *)
(* levels there are), .loose (only what is computed matters), .boot (level and scale after bootstrapping).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Pr == INSTANCE Programs

MulMod16(a, b, t) ==  \* a * b mod t for t < 2^17, without leaving 32 bits
  LET h == b \div 256
      l == b % 256
  IN (((((a * h) % t) * 256) % t) + ((a * l) % t)) % t

Typed(r, v) == r.an[v] # <<>>
Lv(r, v) == r.an[v][1]
Dm(r, v) == r.an[v][2]
Sc(r, v) == r.an[v][3]
Enc(r, v) == Typed(r, v) /\ ~r.pl[v]

\* the types two names of the same ciphertext must have in common
SameT(r, a, b) ==
  /\ Typed(r, b) => (Typed(r, a) \/ r.con[a])
  /\ (Typed(r, a) /\ Typed(r, b)) =>
       Lv(r, a) = Lv(r, b) /\ Sc(r, a) = Sc(r, b) /\ ((~r.pl[a] /\ ~r.pl[b]) => Dm(r, a) = Dm(r, b))
SameTs(r, s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : SameT(r, s[k], t[k])

MulScale(r, a, b) == IF r.sch = "ckks" THEN a + b ELSE MulMod16(a, b, r.t)
Chosen(r) == r.t # 0

\* one operation with typed operands c and typed result u
Rule(r, o, c, u) ==
  LET lv == {Lv(r, x) : x \in c}  encs == {x \in c : Enc(r, x)}
      dms == {Dm(r, x) : x \in encs}
      mx == IF dms = {} THEN 2 ELSE CHOOSE x \in dms : \A y \in dms : y <= x
      x1 == o.i[1]
  IN CASE o.o = "mgmt.modreduce" ->
            /\ Lv(r, u) = Lv(r, x1) - 1 /\ Dm(r, u) = Dm(r, x1)
            /\ Chosen(r) => IF r.sch = "ckks" THEN Sc(r, u) = Sc(r, x1) - r.q[Lv(r, x1) + 1]
                            ELSE MulMod16(Sc(r, u), r.q[Lv(r, x1) + 1], r.t) = Sc(r, x1)
       [] o.o = "mgmt.level_reduce" -> Lv(r, u) = Lv(r, x1) - o.drop /\ o.drop >= 1 /\ Dm(r, u) = Dm(r, x1) /\ Sc(r, u) = Sc(r, x1)
       [] o.o = "mgmt.level_reduce_min" -> Lv(r, u) = 0 /\ Dm(r, u) = Dm(r, x1) /\ Sc(r, u) = Sc(r, x1)
       [] o.o = "mgmt.relinearize" -> lv = {Lv(r, u)} /\ Dm(r, u) = 2 /\ Sc(r, u) = Sc(r, x1)
       [] o.o = "mgmt.adjust_scale" -> lv = {Lv(r, u)} /\ Dm(r, u) = Dm(r, x1)
       [] o.o = "mgmt.bootstrap" -> (r.boot[1] > 0 => Lv(r, u) = r.boot[1]) /\ Dm(r, u) = 2 /\ Dm(r, x1) = 2 /\ (Chosen(r) => Sc(r, u) = r.boot[2])
       [] o.o \in {"arith.muli", "arith.mulf"} ->
            /\ \A k \in 1..2 : Typed(r, o.i[k])
            /\ lv = {Lv(r, u)}
            /\ Dm(r, u) = IF Enc(r, o.i[1]) /\ Enc(r, o.i[2]) THEN Dm(r, o.i[1]) + Dm(r, o.i[2]) - 1 ELSE mx
            /\ Chosen(r) => Sc(r, u) = MulScale(r, Sc(r, o.i[1]), Sc(r, o.i[2]))
       [] o.o \in {"arith.addi", "arith.subi", "arith.addf", "arith.subf", "tensor.insert_slice", "tensor.insert"} ->
            /\ \A k \in 1..2 : Typed(r, o.i[k])
            /\ lv = {Lv(r, u)} /\ Dm(r, u) = mx /\ {Sc(r, x) : x \in c} = {Sc(r, u)}
       [] o.o \in {"tensor_ext.rotate", "tensor_ext.rotate_and_reduce"} ->
            lv = {Lv(r, u)} /\ Dm(r, u) = 2 /\ dms = {2} /\ {Sc(r, x) : x \in c} = {Sc(r, u)}
       [] OTHER -> c = {} \/ (lv = {Lv(r, u)} /\ Dm(r, u) = mx /\ {Sc(r, x) : x \in c} = {Sc(r, u)})

RECURSIVE Ops(_, _)
Yield(b) == b.ops[Len(b.ops)].i
\* an operation, with the regions inside it
Op(r, o) ==
  /\ \A n \in 1..Len(o.r) : Ops(r, o.r[n].ops)
  /\ CASE o.o = "secret.generic" ->
            SameTs(r, o.i, o.r[1].args) /\ SameTs(r, Yield(o.r[1]), o.u)
       [] o.o \in {"affine.for", "scf.for"} ->
            LET a == Tail(o.r[1].args) IN SameTs(r, o.init, a) /\ SameTs(r, a, o.u) /\ SameTs(r, Yield(o.r[1]), o.u)
       [] o.o \in {"scf.if", "affine.if"} ->
            \A n \in 1..Len(o.r) : o.u = <<>> \/ SameTs(r, Yield(o.r[n]), o.u)
       [] o.o = "func.call" -> SameTs(r, o.i, r.fs[o.fn].args) /\ SameTs(r, r.fs[o.fn].ret, o.u)
       [] o.o \in {"mgmt.init", "secret.yield", "scf.yield", "affine.yield", "func.return"} -> TRUE
       [] OTHER ->
            LET c == {o.i[k] : k \in {k \in 1..Len(o.i) : Typed(r, o.i[k])}}
            IN \A k \in 1..Len(o.u) :
                 IF r.con[o.u[k]] \/ r.pl[o.u[k]] THEN TRUE ELSE IF Typed(r, o.u[k]) THEN Rule(r, o, c, o.u[k]) ELSE \A x \in c : r.pl[x]
Ops(r, s) == \A n \in 1..Len(s) : Op(r, s[n]) \/ (r.dbg = 1 /\ PrintT(<<"RULE", s[n].o, s[n].i, s[n].u, [k \in 1..Len(s[n].i) |-> r.an[s[n].i[k]]], [k \in 1..Len(s[n].u) |-> r.an[s[n].u[k]]]>>) /\ FALSE)

Range(r) ==
  \A v \in 1..Len(r.an) : Typed(r, v) =>
    /\ Lv(r, v) >= 0 /\ Lv(r, v) <= r.lim /\ Dm(r, v) >= 2
    /\ Chosen(r) => Sc(r, v) > 0
    /\ r.sch = "bfv" => Lv(r, v) = r.lim

\* What arrives and leaves encrypted is a plain two-element ciphertext.
Ends(r) == \A v \in {r.args[k] : k \in 1..Len(r.args)} \cup {r.ret[k] : k \in 1..Len(r.ret)} :
             (r.sec[v] => Typed(r, v) \/ r.con[v]) /\ (Typed(r, v) => Dm(r, v) = 2)

\* Products not reduced yet: the modulus is switched once per multiplication,
\* before the product is multiplied again (straight-line programs).
Pend(r) ==
  LET b == r.flat
      RECURSIVE Go(_, _)
      Max(f, s) == LET P == {f[x] : x \in {x \in s : Enc(r, x)}} IN IF P = {} THEN 0 ELSE CHOOSE x \in P : \A y \in P : y <= x
      Step(f, o) ==
        LET s == {o.i[k] : k \in 1..Len(o.i)}
        IN CASE o.o \in {"arith.muli", "arith.mulf"} -> Max(f, s) + 1
             [] o.o = "mgmt.modreduce" -> IF f[o.i[1]] > 0 THEN f[o.i[1]] - 1 ELSE 0
             [] o.o = "mgmt.adjust_scale" -> 1
             [] o.o = "mgmt.bootstrap" -> r.first
             [] OTHER -> Max(f, s)
      Ok(f, o) ==
        CASE o.o \in {"arith.muli", "arith.mulf"} -> \A k \in 1..2 : Enc(r, o.i[k]) => f[o.i[k]] = 0
          [] OTHER -> TRUE
      Go(n, f) == IF n > Len(b) THEN r.first = 1 \/ \A k \in 1..Len(r.out) : f[r.out[k]] = 0
                  ELSE LET o == b[n] IN Ok(f, o) /\ Go(n + 1, TLCEval(IF o.u = <<>> THEN f ELSE [f EXCEPT ![o.u[1]] = Step(f, o)]))
  IN Go(1, [v \in 1..Len(r.an) |-> r.first])

WellTyped(r) == Ops(r, r.body) /\ Range(r) /\ Ends(r) /\ ("flat" \in DOMAIN r => Pend(r))
Conforms(r) == (r.loose = 1 \/ WellTyped(r)) /\ Pr!Equivalent(r)
=============================================================================
