------------------------------- MODULE Repro -------------------------------
(* What the result of a merge may depend on: its configuration, the present     *)
(* contents of the models, and the random seed - not on how files are written   *)
(* and read, on string hashing, on what the process did before, or on where the *)
(* models lie (mergekit/merge.py, mergekit/io/tasks.py, mergekit/options.py).    *)
(* h: random: is the method random; runs: seq of [what, seed, digest]; the first *)
(* run is the reference; inputs: are the model directories as they were           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Material(h, r) == IF h.random THEN r.seed ELSE 0
ReproClauses(h) ==
  (IF h.inputs THEN {} ELSE {"inputs-changed"}) \cup
  UNION {UNION {(IF Material(h, h.runs[i]) = Material(h, h.runs[j]) /\ h.runs[i].digest # h.runs[j].digest
                 THEN {"depends-on-" \o h.runs[j].what} ELSE {})
                \cup (IF Material(h, h.runs[i]) # Material(h, h.runs[j]) /\ h.runs[i].digest = h.runs[j].digest
                      THEN {"seed-ignored"} ELSE {}) : j \in {k \in DOMAIN h.runs : k > i}} : i \in {1}}
=============================================================================
