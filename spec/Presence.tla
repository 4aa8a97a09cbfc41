----------------------------- MODULE Presence -----------------------------
(* Which tensors of the source checkpoints take part in a whole-model merge   *)
(* (mergekit/architecture, plan.py, io/tasks.py).  A weight of an             *)
(* architecture has a canonical name, alternative names and names it may be   *)
(* tied to; it may be optional.  A source checkpoint holds a tensor under     *)
(* some of those names.                                                       *)
(*                                                                            *)
(* w: opt; na, nt: number of alternative / tied names;                        *)
(*    held: per model, the positions (1 = canonical, then alternatives, then  *)
(*    tied names) stored in its checkpoint; num: per model and position, the  *)
(*    number every element of that stored tensor has                          *)
(* run: ws: weights; outcome: "ok" | "error";                                 *)
(*      out: per weight [p: written under its canonical name, v: the value of *)
(*           its elements as <<numerator, denominator>>];                     *)
(*      extra: number of written tensors with any other name                  *)
EXTENDS Rat, FiniteSets, TLC
Models(w) == 1..Len(w.held)
NameCount(w) == 1 + w.na + w.nt
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
Holds(w, m, p) == InSeq(w.held[m], p)
(* the stored tensor a model contributes: first of its names that is stored   *)
Load(w, m) == IF \E p \in 1..NameCount(w) : Holds(w, m, p)
              THEN CHOOSE p \in 1..NameCount(w) : Holds(w, m, p) /\ \A q \in 1..(p - 1) : ~Holds(w, m, q)
              ELSE 0
(* an optional weight is part of the merge if some model really has it;       *)
(* being able to fall back on a tied tensor is not having it                  *)
Has(w, m) == \E p \in 1..(1 + w.na) : Holds(w, m, p)
Planned(w) == ~w.opt \/ \E m \in Models(w) : Has(w, m)
Missing(w) == ~w.opt /\ \E m \in Models(w) : Load(w, m) = 0
Givers(w) == {m \in Models(w) : Load(w, m) # 0}
RECURSIVE SumSet(_, _)
SumSet(w, S) == IF S = {} THEN 0 ELSE LET m == CHOOSE m \in S : TRUE IN w.num[m][Load(w, m)] + SumSet(w, S \ {m})
Mean(w) == Q(SumSet(w, Givers(w)), Cardinality(Givers(w)))
Refused(run) == \E i \in 1..Len(run.ws) : Missing(run.ws[i])
WeightOK(w, o) == IF ~Planned(w) THEN (IF o.p THEN {"absent-weight-written"} ELSE {})
                  ELSE IF ~o.p THEN {"weight-lost"}
                  ELSE IF Q(o.v[1], o.v[2]) = Mean(w) THEN {} ELSE {"wrong-source"}
PresenceClauses(run) ==
  IF Refused(run) THEN (IF run.outcome = "error" THEN {} ELSE {"missing-required-weight-accepted"})
  ELSE IF run.outcome # "ok" THEN {"complete-models-refused"}
  ELSE UNION {WeightOK(run.ws[i], run.out[i]) : i \in 1..Len(run.ws)}
       \cup (IF run.extra > 0 THEN {"unknown-tensor-written"} ELSE {})
=============================================================================
