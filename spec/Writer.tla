------------------------------ MODULE Writer ------------------------------
(* Streaming a checkpoint to disk (mergekit/io/tensor_writer.py).            *)
(*                                                                           *)
(* w is the description of one run:                                          *)
(*   max    shard size limit in bytes (0 = unlimited)                        *)
(*   prior  what the directory already holds: "none" | "single" | "multi"    *)
(*   seqn   TRUE when all saves come from one thread                         *)
(* State s: saved  = sequence of [name, val, size] in the order saved        *)
(*          phase  = "open" | "closed" | "failed"                            *)
(*          broken = TRUE once a shard could not be written                  *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(q) == {q[i] : i \in DOMAIN q}
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

WInit(w) == [saved |-> <<>>, phase |-> "open", broken |-> FALSE]

Names(s) == {x.name : x \in Rng(s.saved)}
Pairs(s) == {<<x.name, x.val>> : x \in Rng(s.saved)}

(* A view is what a reader finds in the directory:                           *)
(*  [st |-> "none" | "ok" | "mixed", ent |-> <<[name, val], ...>>, old,      *)
(*   shards |-> <<[size, count], ...>>, total, leftovers]                    *)
(* st = "mixed": the directory presents a checkpoint that is incomplete, or  *)
(* presents two different ones.  old = TRUE: it is exactly the previous one. *)
ViewPairs(v) == {<<x.name, x.val>> : x \in Rng(v.ent)}
Complete(s, v) == v.st = "ok" /\ ~v.old /\ ViewPairs(v) = Pairs(s)

Fits(w, sh) == w.max = 0 \/ sh.size <= w.max \/ sh.count = 1
NoNeedlessSplit(w, v) ==
  \A i \in 1..(Len(v.shards) - 1) :
      w.max > 0 /\ v.shards[i].size + v.shards[i + 1].size > w.max

WClauses(w, s, e) ==
  CASE e.ev = "save" ->
     {c \in {"phase", "save-accepted"} :
        CASE c = "phase" -> s.phase # "open"
          [] c = "save-accepted" -> ~e.ok /\ ~s.broken}
   [] e.ev = "fault" -> {}
   [] e.ev = "finalized" ->
     {c \in {"error-surfaced", "readable", "exact-names", "exact-values", "shard-limit",
             "needless-shard", "total-size", "no-leftovers", "not-stale"} :
        CASE c = "error-surfaced" -> s.broken
          [] c = "not-stale" -> ~s.broken /\ e.view.old
          [] c = "readable" -> ~s.broken /\ ~e.view.old /\ e.view.st # "ok"
          [] c = "exact-names" -> ~s.broken /\ e.view.st = "ok" /\ ~e.view.old
                                   /\ {x[1] : x \in ViewPairs(e.view)} # Names(s)
          [] c = "exact-values" -> ~s.broken /\ e.view.st = "ok" /\ ~e.view.old
                                   /\ {x[1] : x \in ViewPairs(e.view)} = Names(s)
                                   /\ ViewPairs(e.view) # Pairs(s)
          [] c = "shard-limit" -> ~(\A i \in DOMAIN e.view.shards : Fits(w, e.view.shards[i]))
          [] c = "needless-shard" -> w.seqn /\ ~NoNeedlessSplit(w, e.view)
          [] c = "total-size" -> Len(e.view.shards) > 1
                                 /\ e.view.total # SumSeq([i \in DOMAIN s.saved |-> s.saved[i].size])
          [] c = "no-leftovers" -> e.view.leftovers}
   [] e.ev = "error" ->
     {c \in {"unprovoked-error", "no-false-success"} :
        CASE c = "unprovoked-error" -> ~s.broken
          [] c = "no-false-success" -> ~(e.view.st = "none" \/ Complete(s, e.view)
                                         \/ (w.prior # "none" /\ e.view.st = "ok" /\ e.view.old))}
   [] e.ev = "crash" ->
     {c \in {"crash-consistent"} :
        ~(e.view.st = "none"
          \/ (e.view.st = "ok" /\ ~e.view.old /\ ViewPairs(e.view) = Rng(w.all))
          \/ (w.prior # "none" /\ e.view.st = "ok" /\ e.view.old))}
   [] OTHER -> {"unknown-event"}

WEffect(w, s, e) ==
  CASE e.ev = "save" -> IF e.ok THEN [s EXCEPT !.saved = Append(@, [name |-> e.name, val |-> e.val, size |-> e.size])]
                        ELSE s
    [] e.ev = "fault" -> [s EXCEPT !.broken = TRUE]
    [] OTHER -> [s EXCEPT !.phase = "closed"]
=============================================================================
