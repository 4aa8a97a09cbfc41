-------------------------------- MODULE Lone --------------------------------
(* Weights that exist in one source only, and the sources a method needs.      *)
(* A method whose formula reduces to the lone tensor must return it; a merge   *)
(* that lacks something it needs must be refused.                              *)
(*                                                                             *)
(* c: [method, base: a base model is given, others: number of other models,    *)
(*     have: who has the weight: "all" | "base" | "other"]                     *)
(* o: [outcome, same: the output equals the lone tensor, present]              *)
EXTENDS Integers, Sequences, FiniteSets
Gta == {"task_arithmetic", "ties", "dare_linear", "dare_ties", "breadcrumbs", "breadcrumbs_ties", "della", "della_linear"}
NeedsBase == Gta \cup {"slerp", "nearswap", "model_stock", "ram", "ramplus_tl", "sce", "arcee_fusion"}
OptBase == {"nuslerp", "multislerp"}
NoBase == {"linear", "karcher", "passthrough"}
Methods == NeedsBase \cup OptBase \cup NoBase
TakesBase(m) == m \in NeedsBase \cup OptBase
(* numbers of other models a method can work with *)
CountOK(c) == CASE c.method = "passthrough" -> c.others = 1
                [] c.method \in {"slerp", "nearswap", "arcee_fusion"} -> c.others = 1
                [] c.method = "nuslerp" -> c.others = 2
                [] c.method = "model_stock" -> c.others >= 2
                [] OTHER -> c.others >= 1
MustFail(c) == \/ c.method \in NeedsBase /\ ~c.base
               \/ c.have = "all" /\ ~CountOK(c)
(* the formula is defined for a weight only these sources have *)
LoneOK(c) == /\ CountOK(c)
             /\ \/ c.have = "base" /\ c.base /\ c.method \in NeedsBase \cup {"nuslerp"}
                \/ c.have = "other" /\ c.method \in {"linear", "karcher", "nuslerp", "slerp", "arcee_fusion", "multislerp"}
Valid(c) == /\ ~(c.method = "nuslerp" /\ c.others = 1)   \* left open
            /\ c.base => TakesBase(c.method)
            /\ c.have = "base" => c.base
            /\ c.have = "other" => c.others + (IF c.base THEN 1 ELSE 0) >= 2
LoneClauses(h) ==
  LET c == h.c o == h.o IN
  IF MustFail(c) THEN (IF o.outcome = "error" THEN {} ELSE {"impossible-merge-accepted"})
  ELSE IF c.have = "all" THEN (IF o.outcome = "ok" THEN {} ELSE {"valid-merge-refused"})
  ELSE IF ~LoneOK(c) THEN {}
  ELSE IF o.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE IF ~o.present THEN {"tensor-lost"}
  ELSE IF ~o.same THEN {"lone-tensor-changed"} ELSE {}
=============================================================================
