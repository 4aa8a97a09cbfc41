------------------------------- MODULE Method -------------------------------
(* What a user-defined merge method (the merge_method decorator) is called     *)
(* with, for every signature and every configuration.                          *)
(*                                                                             *)
(* m: base: "none" | "opt" | "req" (a base_tensor argument);                   *)
(*    ps: seq of [name, kind: "scalar"|"vector", def: seq of at most 1 value]; *)
(*    wants: set-like seq of "output_weight" / "base_model"                    *)
(* c: models: seq of [id, par: seq of [name, v]] in configuration order;       *)
(*    base: id or 0; top: seq of [name, v]; route: "yaml" | "raw"              *)
(* A value is written as a number of thousandths.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ids(c) == [i \in DOMAIN c.models |-> c.models[i].id]
Listed(c, b) == \E i \in DOMAIN c.models : c.models[i].id = b
Inputs(c) == IF c.base = 0 \/ Listed(c, c.base) THEN Ids(c) ELSE Append(Ids(c), c.base)
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Lookup(par, n) == LET R == {i \in DOMAIN par : par[i].name = n} IN
                  IF R = {} THEN <<>> ELSE <<par[CHOOSE i \in R : TRUE].v>>
Own(c, id) == LET R == {i \in DOMAIN c.models : c.models[i].id = id} IN
              IF R = {} THEN <<>> ELSE c.models[CHOOSE i \in R : TRUE].par
First(a, b) == IF a # <<>> THEN a ELSE b
Scalar(m, c, p) == First(Lookup(c.top, p.name), p.def)
Vector(m, c, p, id) == First(Lookup(Own(c, id), p.name), First(Lookup(c.top, p.name), p.def))
Scalars(m) == {i \in DOMAIN m.ps : m.ps[i].kind = "scalar"}
Vectors(m) == {i \in DOMAIN m.ps : m.ps[i].kind = "vector"}
(* refused before anything is merged *)
Unset(m, c) ==
  \/ \E i \in Scalars(m) : Scalar(m, c, m.ps[i]) = <<>>
  \/ \E i \in Vectors(m) : \E k \in DOMAIN Inputs(c) :
       Inputs(c)[k] # c.base /\ Vector(m, c, m.ps[i], Inputs(c)[k]) = <<>>
NoBase(m, c) == m.base = "req" /\ c.base = 0
Refused(m, c) == Unset(m, c) \/ NoBase(m, c)
(* undetermined: a per-model value is due for the base and nobody set one *)
Undetermined(m, c) ==
  /\ c.base # 0
  /\ \E i \in Vectors(m) :
       \/ Vector(m, c, m.ps[i], c.base) = <<>> /\ (m.base = "none" \/ (c.route = "raw" /\ Listed(c, c.base)))
       \/ c.route = "raw" /\ m.base = "none" /\ ~Listed(c, c.base)

(* --- the call for one tensor, present in the models `has` (a seq of ids) ---- *)
Has(has, id) == \E i \in DOMAIN has : has[i] = id
There(c, has) == SelectSeq(Inputs(c), LAMBDA id : Has(has, id))
Order(m, c, has) ==
  IF c.base = 0 \/ ~Has(has, c.base) THEN There(c, has)
  ELSE IF m.base = "none" THEN <<c.base>> \o Without(There(c, has), c.base)
  ELSE Without(There(c, has), c.base)
CallFails(m, c, has) == m.base = "req" /\ ~Has(has, c.base)
BaseSeen(m, c, has) == IF m.base = "none" THEN 0 - 1 ELSE IF c.base # 0 /\ Has(has, c.base) THEN c.base ELSE 0
VecSeen(m, c, has, p) == LET o == Order(m, c, has) IN [k \in DOMAIN o |-> Vector(m, c, p, o[k])]

(* --- verdict ------------------------------------------------------------------ *)
(* h: m, c, outcome, defined: was the method accepted,                            *)
(*    calls: seq of [name, has, order, base, par: seq of seq of seq of at most 1   *)
(*    value (scalars: one entry), weight: name told ("" if not wanted), bm: base   *)
(*    told (-1 if not wanted), out: the id*1000+.. marker written matches]         *)
Want(m, w) == \E i \in DOMAIN m.wants : m.wants[i] = w
CallOK(m, c, k) ==
  /\ k.order = Order(m, c, k.has)
  /\ k.base = BaseSeen(m, c, k.has)
  /\ \A i \in DOMAIN m.ps :
       IF m.ps[i].kind = "scalar" THEN k.par[i] = <<Scalar(m, c, m.ps[i])>>
       ELSE k.par[i] = VecSeen(m, c, k.has, m.ps[i])
  /\ k.weight = (IF Want(m, "output_weight") THEN k.name ELSE "")
  /\ k.bm = (IF Want(m, "base_model") THEN c.base ELSE 0 - 1)
  /\ k.kept
MethodClauses(h) ==
  LET m == h.m c == h.c IN
  IF Refused(m, c) THEN (IF h.outcome = "ok" THEN {"incomplete-configuration-accepted"} ELSE {})
  ELSE IF Undetermined(m, c) THEN {}
  ELSE IF \E i \in DOMAIN h.tensors : CallFails(m, c, h.tensors[i].has)
    THEN (IF h.outcome = "ok" THEN {"missing-base-accepted"} ELSE {})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE (IF {h.calls[i].name : i \in DOMAIN h.calls} = {h.tensors[i].name : i \in DOMAIN h.tensors}
           /\ Len(h.calls) = Len(h.tensors) THEN {} ELSE {"not-once-per-tensor"})
       \cup (IF \A i \in DOMAIN h.calls : CallOK(m, c, h.calls[i]) THEN {} ELSE {"wrong-call"})
=============================================================================
