------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Transformed programs against their source: for every recorded input on  *)
(* which the source program is defined, each transformed program is defined*)
(* too, returns the same values and leaves the same contents in the memory *)
(* it was handed.                                                          *)
(***************************************************************************)
EXTENDS HeirMachine

Outcome(p, inp) ==
  LET s == TLCEval(Run(p.fs, p.main, inp.args, inp.heap))
  IN [k |-> s.k, r |-> s.r, h |-> IF s.k THEN SubSeq(s.m, 1, Len(inp.heap)) ELSE <<>>]

Same(ref, o) == ref.k => (o.k /\ o.r = ref.r /\ o.h = ref.h)

\* r.progs[1] is the source
Equivalent(r) ==
  \A n \in 1..Len(r.inputs) :
    LET ref == TLCEval(Outcome(r.progs[1], r.inputs[n]))
    IN \A q \in 2..Len(r.progs) : Same(ref, TLCEval(Outcome(r.progs[q], r.inputs[n])))

\* What an observer of branches, trip counts and addresses sees does not
\* depend on the secrets: inputs with the same public part (.g) are
\* indistinguishable to him.
Oblivious(p, r) ==
  LET ok == {n \in 1..Len(r.inputs) : Outcome(r.progs[1], r.inputs[n]).k}
      c == TLCEval([n \in ok |-> Run(p.fs, p.main, r.inputs[n].args, r.inputs[n].heap).c])
  IN \A n, m \in ok : r.inputs[n].g = r.inputs[m].g => c[n] = c[m]

Conforms(r) ==
  /\ Equivalent(r)
  /\ "oblivious" \in DOMAIN r => \A q \in 2..Len(r.progs) : Oblivious(r.progs[q], r)

\* how many of the inputs are defined behaviour of the source
Defined(r) == Cardinality({n \in 1..Len(r.inputs) : Outcome(r.progs[1], r.inputs[n]).k})
=============================================================================
