------------------------------ MODULE Extract ------------------------------
(* mergekit-extract-lora: the adapter extracted from a base model and a fine-tuned *)
(* one, applied to the base model, gives the fine-tuned model, module by module,   *)
(* up to what the options leave out (mergekit/scripts/extract_lora.py).            *)
(* o: maxRank, eps2 (twice the threshold), embedLora, skip, tied (are input and     *)
(* output embeddings one tensor), filtered (are there include filters)              *)
(* m: kind ("linear", "embed", "other"), inc / exc (matched by an include / exclude *)
(* filter), req (asked for with --save-module), sv: singular values of what fine-   *)
(* tuning added, largest first (one value for a vector)                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Saved(o, m) == m.req \/ (m.kind = "embed" /\ ~(o.embedLora /\ ~o.tied) /\ ~m.exc)
Chosen(o, m) == (~o.filtered \/ m.inc) /\ ~m.exc
Fate(o, m) == IF Saved(o, m) THEN "full"
              ELSE IF ~Chosen(o, m) THEN "base"
              ELSE IF m.kind # "other" THEN "lora"
              ELSE IF o.skip THEN "base" ELSE "full"
Large(o, m) == Cardinality({i \in DOMAIN m.sv : 2 * m.sv[i] > o.eps2})
MinE(a, b) == IF a < b THEN a ELSE b
(* how many singular values the adapter keeps; when none is above the threshold    *)
(* it may keep one all the same, as PEFT has no adapters of rank zero              *)
Keeps(o, m) ==
  CASE Fate(o, m) = "full" -> {Len(m.sv)}
    [] Fate(o, m) = "base" -> {0}
    [] OTHER -> LET n == IF o.eps2 = 0 THEN Len(m.sv) ELSE Large(o, m) IN
                IF n = 0 THEN {0, MinE(1, Len(m.sv))} ELSE {MinE(n, o.maxRank)}
Lora(o, ms) == {i \in DOMAIN ms : Fate(o, ms[i]) = "lora"}
AbsE(x) == IF x < 0 THEN 0 - x ELSE x
(* observed, in thousandths: coef: how much of each singular direction the result  *)
(* has; resid: what it has besides; bcoef: how much of the change to the bias (or   *)
(* -1: there is none); rank: of the adapter (0: none)                               *)
Tol == 20
ModClauses(o, m) ==
  (IF \E k \in Keeps(o, m) : \A i \in DOMAIN m.sv : AbsE(m.coef[i] - (IF i <= k THEN 1000 * m.sv[i] ELSE 0)) <= Tol THEN {}
   ELSE IF Fate(o, m) = "base" THEN {"changed-although-left-out"}
   ELSE IF \A i \in DOMAIN m.sv : AbsE(m.coef[i]) <= Tol THEN {"change-lost"}
   ELSE {"wrong-singular-values"}) \cup
  (IF m.resid <= Tol THEN {} ELSE {"something-else-added"}) \cup
  (IF m.bcoef < 0 THEN {}
   ELSE IF AbsE(m.bcoef - (IF Fate(o, m) = "base" THEN 0 ELSE 1000)) <= Tol THEN {} ELSE {"bias-lost"}) \cup
  (IF m.rank <= o.maxRank THEN {} ELSE {"rank-too-large"})
ExtractClauses(h) ==
  (IF h.inputs THEN {} ELSE {"inputs-changed"}) \cup
  (IF h.outcome # "ok" THEN (IF Lora(h.o, h.mods) = {} THEN {} ELSE {"extraction-fails"})
   ELSE IF h.applied # "ok" THEN {"adapter-unusable"}
   ELSE UNION {ModClauses(h.o, h.mods[i]) : i \in DOMAIN h.mods})
=============================================================================
