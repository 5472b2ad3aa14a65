------------------------------- MODULE Noise -------------------------------
(* Noise growth of BGV and BFV ciphertexts, one operator per published growth
   formula.  A scheme parameter is
     [n, t, qs (limbs of each modulus), qinv (reciprocals, checked), level,
      dnum, ps (limbs of special moduli), pk, ext]
   a noise state [v |-> Flt, d |-> degree in the secret].                    *)
EXTENDS Flt, Sequences
F0 == FZero
F1 == FInt(1)
Std == FDivI(FInt(16), 5)                  \* 3.2
VarErr == FDivI(FInt(256), 25)
VarKey == FDivI(FInt(2), 3)
ErrB == FMul(FInt(6), Std)
T(p) == FBig(p.t)
Nn(p) == FInt(p.n)
CeilDiv(a, b) == (a + b - 1) \div b
Digits(p, lvl) == CeilDiv(lvl + 1, p.dnum) + 1
\* growth of a product of ring elements, and of the rounding error times the key
Delta(p, m) == IF m = "worst" THEN Nn(p) ELSE FMul(FInt(2), FSqrt(Nn(p)))
DeltaMS(p, m) == IF m = "worst" THEN Nn(p) ELSE FMul(FInt(4), FSqrt(Nn(p)))
St(v, d) == [v |-> TLCEval(v), d |-> d]
Max2(a, b) == IF a > b THEN a ELSE b
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
RoundB(p, m) == FDivI(FAdd(F1, DeltaMS(p, m)), 2)                 \* (1 + delta |s|)/2
OnePlusNV(p) == FAdd(F1, FMul(Nn(p), VarKey))                      \* 1 + N Var(s)
TT(p) == FMul(T(p), T(p))
(* canonical embedding: D = 6 *)
D(x) == FMul(FInt(6), FSqrt(x))
BH(p) == D(FMul(FDivI(Nn(p), 12), OnePlusNV(p)))
FreshCan(p, msg) == LET k == FMul(FInt(2), FMul(Nn(p), FMul(VarErr, VarKey))) IN D(FMul(Nn(p), FAdd(msg, FAdd(k, VarErr))))
FreshSkCan(p, msg) == D(FMul(Nn(p), FAdd(msg, VarErr)))
FreshVar(p) == FMul(VarErr, FAdd(F1, FMul(FInt(2), FMul(Nn(p), VarKey))))
FreshBound(p, m) == FMul(ErrB, FAdd(F1, FMul(FInt(2), Delta(p, m))))
Twelfth == FDivI(F1, 12)

ModReduceBGV(p, m, lvl, a) ==
  LET qi == p.qinv[lvl + 1] IN
  CASE m \in {"worst", "average"} -> St(FAdd(FMul(a.v, qi), RoundB(p, m)), a.d)
    [] m = "variance" -> St(FAdd(FMul(a.v, FMul(qi, qi)), FMul(FMul(TT(p), Twelfth), OnePlusNV(p))), a.d)
    [] m = "canemb" -> St(FAdd(FMul(a.v, qi), FMul(T(p), BH(p))), a.d)
RelinBGV(p, m, lvl, a) ==
  CASE m \in {"worst", "average"} -> St(FAdd(a.v, FAdd(FMul(FInt(Digits(p, lvl)), FDivI(FMul(Delta(p, m), ErrB), 2)), RoundB(p, m))), a.d)
    [] m = "variance" -> St(FAdd(a.v, FAdd(FMul(TT(p), FMul(FInt(Digits(p, lvl)), FMul(Twelfth, FMul(Nn(p), VarErr)))), FMul(FMul(TT(p), Twelfth), OnePlusNV(p)))), a.d)
    [] m = "canemb" ->      \* sqrt(dnum (l+1)) p^ceil(l/dnum) B_ks / P + sqrt(k) B_scale
         LET bks == FMul(FInt(6), FMul(T(p), FMul(Nn(p), FSqrt(FDivI(VarErr, 12)))))
             maxp == p.pmax
             pow == FProd([i \in 1..CeilDiv(lvl, p.dnum) |-> FBig(p.ps[maxp])], CeilDiv(lvl, p.dnum))
             ks == FMul(FSqrt(FInt(p.dnum * (lvl + 1))), FMul(pow, FMul(bks, FProd(p.pinv, Len(p.pinv)))))
         IN St(FAdd(a.v, FAdd(ks, FMul(FSqrt(FInt(Len(p.ps))), FMul(T(p), BH(p))))), a.d)
EncBGV(p, m, lvl) ==
  LET pk == CASE m \in {"worst", "average"} -> FreshBound(p, m) [] m = "variance" -> FMul(TT(p), FreshVar(p)) [] m = "canemb" -> FMul(T(p), FreshCan(p, Twelfth))
      sk == CASE m \in {"worst", "average"} -> ErrB [] m = "variance" -> FMul(TT(p), VarErr) [] m = "canemb" -> FMul(T(p), FreshSkCan(p, Twelfth))
  IN IF p.ext THEN ModReduceBGV(p, m, lvl, St(pk, 0)) ELSE IF p.pk THEN St(pk, 0) ELSE St(sk, 0)
ConstBGV(p, m) ==
  CASE m \in {"worst", "average"} -> St(F0, 0) [] m = "variance" -> St(FDivI(TT(p), 12), 0) [] m = "canemb" -> St(FDivI(FMul(T(p), Nn(p)), 2), 0)
AddBGV(p, m, a, b) == LET s == FAdd(a.v, b.v) IN St(IF m \in {"worst", "average"} THEN FAdd(s, F1) ELSE s, Max2(a.d, b.d))
MulBGV(p, m, a, b) ==
  CASE m \in {"worst", "average"} ->
         St(FAdd(FMul(FMul(FMul(a.v, b.v), Delta(p, m)), T(p)), FMul(FAdd(FAdd(a.v, b.v), F1), FDivI(FMul(Nn(p), T(p)), 2))), Max2(a.d, b.d))
    [] m = "variance" -> St(FMul(FMul(a.v, b.v), Nn(p)), Max2(a.d, b.d))
    [] m = "canemb" -> St(FMul(a.v, b.v), Max2(a.d, b.d))

QInv(p) == FProd(p.qinv, Len(p.qinv))
EncBFV(p, m, lvl) ==
  CASE m \in {"worst", "average"} -> St(IF p.ext THEN RoundB(p, m) ELSE IF p.pk THEN FreshBound(p, m) ELSE ErrB, 0)
    [] m = "variance" -> IF p.ext THEN St(FMul(Twelfth, OnePlusNV(p)), 1) ELSE IF p.pk THEN St(FreshVar(p), 1) ELSE St(VarErr, 0)
    [] m = "canemb" -> IF p.ext THEN St(FAdd(FMul(FreshCan(p, F0), p.qinv[lvl + 1]), BH(p)), 0) ELSE IF p.pk THEN St(FreshCan(p, F0), 0) ELSE St(FreshSkCan(p, F0), 0)
ConstBFV(p, m) == IF m = "canemb" THEN St(FMul(T(p), FSqrt(FDivI(Nn(p), 12))), 0) ELSE St(F0, 0)
AddBFV(p, m, a, b) == AddBGV(p, m, a, b)
MulBFV(p, m, a, b) ==
  CASE m \in {"worst", "average"} ->
         LET d == Delta(p, m) dm == DeltaMS(p, m) IN
         St(FAdd(FMul(FMul(FMul(a.v, b.v), FMul(d, T(p))), QInv(p)),
                 FAdd(FMul(FAdd(a.v, b.v), FMul(FDivI(FMul(d, T(p)), 2), FAdd(FInt(4), dm))),
                      FDivI(FAdd(F1, FAdd(dm, FMul(d, dm))), 2))), Max2(a.d, b.d))
    [] m = "variance" ->
         LET nt == FMul(Nn(p), TT(p))
             ct == a.v # F0 /\ b.v # F0
             x == FAdd(FMul(FMul(FMul(a.v, b.v), nt), FMul(QInv(p), QInv(p))), FMul(FAdd(a.v, b.v), FDivI(nt, 12)))
             y == FMul(FAdd(FMul(a.v, FInt(a.d + 1)), FMul(b.v, FInt(b.d + 1))), FMul(OnePlusNV(p), FDivI(nt, 12)))
         IN St(IF ct THEN FAdd(x, y) ELSE x, Max2(a.d, b.d) + (IF ct THEN 1 ELSE 0))
    [] m = "canemb" -> St(FAdd(FMul(FMul(a.v, b.v), FMul(T(p), QInv(p))), FMul(FAdd(a.v, b.v), FMul(T(p), BH(p)))), Max2(a.d, b.d))
RelinBFV(p, m, a) ==
  CASE m \in {"worst", "average"} -> St(FAdd(a.v, FAdd(FMul(FInt(Digits(p, p.level)), FDivI(FMul(Delta(p, m), ErrB), 2)), RoundB(p, m))), a.d)
    [] m = "variance" -> St(FAdd(a.v, FAdd(FMul(TT(p), FMul(FInt(Digits(p, p.level)), FMul(Twelfth, FMul(Nn(p), VarErr)))), FMul(Twelfth, OnePlusNV(p)))), a.d)
    [] m = "canemb" -> a

Step(p, sch, m, s, st) ==      \* one operation of a history; st: states so far
  CASE s.op = "enc" -> IF sch = "bgv" THEN EncBGV(p, m, s.lvl) ELSE EncBFV(p, m, s.lvl)
    [] s.op = "const" -> IF sch = "bgv" THEN ConstBGV(p, m) ELSE ConstBFV(p, m)
    [] s.op = "add" -> IF sch = "bgv" THEN AddBGV(p, m, st[s.a], st[s.b]) ELSE AddBFV(p, m, st[s.a], st[s.b])
    [] s.op = "mul" -> IF sch = "bgv" THEN MulBGV(p, m, st[s.a], st[s.b]) ELSE MulBFV(p, m, st[s.a], st[s.b])
    [] s.op = "modred" -> IF sch = "bgv" THEN ModReduceBGV(p, m, s.lvl, st[s.a]) ELSE st[s.a]
    [] s.op = "relin" -> IF sch = "bgv" THEN RelinBGV(p, m, s.lvl, st[s.a]) ELSE RelinBFV(p, m, st[s.a])
    [] s.op = "keep" -> st[s.a]
    [] s.op = "join" -> St(FMax(st[s.a].v, st[s.b].v), Max2(st[s.a].d, st[s.b].d))
(* the reported bound on the error, from the state: for a variance the factor
   sqrt(2) erfinv((1 - 2^-32)^(1/N)), tabulated to one part in 1000 for N = 2^k *)
TailTab == << 6338, 6444, 6548, 6651, 6752, 6852, 6951, 7048, 7144, 7238, 7332, 7424, 7515, 7605, 7694, 7783, 7870, 7956 >>
RECURSIVE Lg(_)
Lg(n) == IF n = 1 THEN 0 ELSE 1 + Lg(n \div 2)
BoundOf(p, sch, m, a) == IF m = "variance" THEN FDivI(FMul(FSqrt(a.v), FInt(TailTab[Lg(p.n) + 1])), 1000)
  ELSE IF sch = "bgv" /\ m # "canemb" THEN FMul(a.v, T(p)) ELSE a.v
\* the tail factor may be generous (single-precision erfinv), never short
BoundOk(p, sch, m, a, x) == LET b == BoundOf(p, sch, m, a)
  IN IF m = "variance" THEN FLe(b, FAdd(x, FMul(x, FPow2(-7)))) /\ FLe(x, FMul(b, FInt(4))) ELSE FNear(b, x, 28)
(* what the error must stay below: half of the remaining modulus, for BFV of Q/t *)
Levels(p, sch, lvl) == IF sch = "bgv" THEN lvl ELSE p.level
TotalOf(p, sch, lvl, x) ==     \* x is the limit
  LET q == FProd([i \in 1..Len(p.qs) |-> FBig(p.qs[i])], Levels(p, sch, lvl) + 1)
  IN FNear(FMul(FInt(2), IF sch = "bgv" THEN x ELSE FMul(x, T(p))), q, 28)
ParamOk(p) == /\ \A i \in 1..Len(p.qs) : FNear(FMul(FBig(p.qs[i]), p.qinv[i]), F1, 38)
              /\ \A i \in 1..Len(p.ps) : FNear(FMul(FBig(p.ps[i]), p.pinv[i]), F1, 38)
              /\ \A i \in 1..Len(p.ps) : BLe(p.ps[i], p.ps[p.pmax])
RECURSIVE Run(_, _, _, _)
Run(p, sch, m, steps) == IF steps = <<>> THEN <<>>
  ELSE LET k == Len(steps) st == TLCEval(Run(p, sch, m, SubSeq(steps, 1, k - 1))) IN Append(st, TLCEval(Step(p, sch, m, steps[k], st)))
(* rec: a parameter, a model, a history and what the model reported for each value *)
Conforms(rec) ==
  LET p == TLCEval(rec.p)
      st == TLCEval(Run(p, rec.sch, rec.m, rec.steps))
  IN /\ Assert(ParamOk(p), "bad parameter encoding")
     /\ \A i \in 1..Len(st) : LET o == rec.out[i] s == rec.steps[i] IN
          /\ FNear(st[i].v, o.v, 28)
          /\ (rec.sch = "bfv" /\ rec.m = "variance") => st[i].d = o.d
          /\ BoundOk(p, rec.sch, rec.m, st[i], o.bound)
          /\ TotalOf(p, rec.sch, s.lvl, o.total)
          /\ o.bound.m # <<>> => FNear(FMul(o.budget, o.bound), o.total, 28)
=============================================================================
