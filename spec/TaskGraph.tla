----------------------------- MODULE TaskGraph -----------------------------
(* Serial evaluation of a task graph (mergekit/graph.py).                    *)
(*                                                                           *)
(* A graph g is a record                                                     *)
(*   n       number of tasks, ids 1..n, ids increase along dependencies      *)
(*   args    args[t] = sequence of producers, one per named argument of t    *)
(*   targets sequence of requested tasks                                     *)
(*   cached  sequence of tasks whose value is supplied by the caller         *)
(*   accel   sequence of tasks that want their inputs on the math device     *)
(* Every step of the evaluator is an event; Clauses(g, s, e) is the set of   *)
(* names of the rules the event breaks in state s (empty = the step is       *)
(* allowed) and Effect(g, s, e) the state afterwards.  The exhaustive model  *)
(* and the trace specification share both.                                   *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(q) == {q[i] : i \in DOMAIN q}
Tasks(g) == 1..g.n
Deps(g, t) == Rng(g.args[t])
Cached(g) == Rng(g.cached)
Targets(g) == Rng(g.targets)

(* Tasks that have to be considered: targets and, below every one of them    *)
(* that is not cached, its dependencies.                                     *)
Explored(g) ==
  LET RECURSIVE Close(_)
      Close(S) == LET S2 == S \union UNION {Deps(g, t) : t \in S \ Cached(g)}
                  IN IF S2 = S THEN S ELSE Close(S2)
  IN Close(Targets(g))
ToRun(g) == Explored(g) \ Cached(g)

Init0(g) == [run |-> ToRun(g), done |-> {}, cur |-> 0, store |-> {},
             yielded |-> {}, lastY |-> 0, phase |-> "run", failed |-> 0]

(* values that some task still to be executed will read *)
Pending(g, s) == {d \in s.store : \E c \in s.run \ s.done : d \in Deps(g, c)}

StartClauses(g, s, e) ==
  LET t == e.t IN
  {c \in {"phase", "needed", "not-cached", "once", "one-at-a-time", "inputs-ready",
          "argument-values", "argument-device", "released", "target-delivered"} :
    CASE c = "phase"           -> s.phase # "run"
      [] c = "needed"          -> t \notin s.run /\ t \notin Cached(g)
      [] c = "not-cached"      -> t \in Cached(g)
      [] c = "once"            -> t \in s.done
      [] c = "one-at-a-time"   -> s.cur # 0
      [] c = "inputs-ready"    -> ~(Deps(g, t) \subseteq (s.done \union Cached(g)))
      [] c = "argument-values" -> e.args # g.args[t]
      [] c = "argument-device" -> e.dev # (IF g.args[t] = <<>> THEN "none"
                                           ELSE IF t \in Rng(g.accel) THEN "math"
                                           ELSE "storage")
      \* only values with a consumer still to run may be alive now, besides the
      \* target most recently handed to the caller
      [] c = "released"        -> ~(Rng(e.live) \subseteq (Pending(g, s) \union {s.lastY}))
      [] c = "target-delivered" -> ~((s.done \intersect Targets(g)) \subseteq s.yielded)}

Clauses(g, s, e) ==
  CASE e.ev = "start" -> StartClauses(g, s, e)
    [] e.ev = "end" ->
         {c \in {"phase", "was-started"} :
            CASE c = "phase" -> s.phase # "run"
              [] c = "was-started" -> s.cur # e.t}
    [] e.ev = "yield" ->
         {c \in {"phase", "is-target", "evaluated", "delivered-once", "target-value", "target-device"} :
            CASE c = "phase" -> s.phase # "run"
              [] c = "is-target" -> e.t \notin Targets(g)
              [] c = "evaluated" -> e.t \notin s.done
              [] c = "delivered-once" -> e.t \in s.yielded
              [] c = "target-value" -> e.value # e.t
              [] c = "target-device" -> e.dev # "storage"}
    [] e.ev = "fail" ->
         {c \in {"phase", "was-started"} :
            CASE c = "phase" -> s.phase # "run"
              [] c = "was-started" -> s.cur # e.t}
    [] e.ev = "raised" ->
         {c \in {"error-has-cause", "error-identity"} :
            CASE c = "error-has-cause" -> s.failed = 0
              [] c = "error-identity" -> s.failed # e.t}
    [] e.ev = "finish" ->
         {c \in {"phase", "error-surfaced", "all-run", "all-delivered", "all-released"} :
            CASE c = "phase" -> s.phase = "over"
              [] c = "error-surfaced" -> s.failed # 0
              [] c = "all-run" -> s.failed = 0 /\ s.done # s.run
              \* a cached target needs no evaluation; the evaluator reports only
              \* what it evaluated
              [] c = "all-delivered" -> s.failed = 0 /\ s.yielded # (Targets(g) \ Cached(g))
              [] c = "all-released" -> s.failed = 0 /\ Rng(e.live) # {}}
    [] OTHER -> {"unknown-event"}

Effect(g, s, e) ==
  CASE e.ev = "start"  -> [s EXCEPT !.cur = e.t, !.store = Pending(g, s)]
    [] e.ev = "end"    -> [s EXCEPT !.cur = 0, !.done = @ \union {e.t}, !.store = @ \union {e.t}]
    [] e.ev = "yield"  -> [s EXCEPT !.yielded = @ \union {e.t}, !.lastY = e.t]
    [] e.ev = "fail"   -> [s EXCEPT !.failed = e.t, !.phase = "failed"]
    [] e.ev = "raised" -> [s EXCEPT !.phase = "over"]
    [] e.ev = "finish" -> [s EXCEPT !.phase = "over"]
=============================================================================
