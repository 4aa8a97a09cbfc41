--------------------------- MODULE ParallelExec ---------------------------
(* Multi-device evaluation of a task graph (mergekit/multigpu_executor.py).  *)
(* Graph records are those of TaskGraph plus                                 *)
(*   main  tasks that must run on the main thread                            *)
(*   dup   tasks that every device runs for itself                           *)
EXTENDS TaskGraph

Main(g) == Rng(g.main)
Dup(g) == Rng(g.dup)
Used(g, t) == {c \in Tasks(g) : t \in Deps(g, c)}

(* main-thread tasks that can run before everything else *)
Leading(g) ==
  LET lead[t \in Tasks(g)] == t \in Main(g) /\ \A d \in Deps(g, t) : lead[d]
  IN {t \in ToRun(g) : lead[t]}
(* main-thread tasks nothing but main-thread tasks waits for *)
Trailing(g) ==
  LET trail[t \in Tasks(g)] == t \in Main(g) /\ \A c \in Used(g, t) : trail[c]
  IN {t \in ToRun(g) : trail[t]}
Parallel(g) == ToRun(g) \ (Leading(g) \union Trailing(g) \union Dup(g))

(* Graphs the engine accepts (the rest is refused at construction).  Per-    *)
(* device tasks read only leading or per-device tasks.                       *)
Legal(g) ==
  /\ g.cached = <<>>
  /\ ToRun(g) = Tasks(g)
  /\ \A t \in Main(g) : t \in Leading(g) \union Trailing(g)
  /\ Main(g) \intersect Dup(g) = {}
  /\ \A t \in Dup(g) : Deps(g, t) \subseteq (Leading(g) \union Dup(g))
  /\ (Dup(g) \intersect Targets(g) # {} => Parallel(g) # {})

(* weakly connected components of the parallel part *)
Linked(g, a, b) == a \in Deps(g, b) \/ b \in Deps(g, a)
Island(g, t) ==
  LET RECURSIVE Grow(_)
      Grow(S) == LET S2 == S \union {u \in Parallel(g) : \E v \in S : Linked(g, u, v)}
                 IN IF S2 = S THEN S ELSE Grow(S2)
  IN Grow({t})

(* --- observable events (trace side) -------------------------------------- *)
(* o: observer state.  thr = 0 is the main thread, k > 0 a worker.           *)
OInit(g) == [ended |-> {}, started |-> {}, count |-> [t \in Tasks(g) |-> 0], yielded |-> {}, failed |-> {}, phase |-> "run"]
EndedTasks(o) == {x[1] : x \in o.ended}
OClauses(g, o, e) ==
  CASE e.ev = "start" ->
    {c \in {"phase", "known-task", "once", "main-thread", "worker-thread", "inputs-ready", "argument-values",
            "nothing-on-main-after-failure"} :
      CASE c = "phase" -> o.phase # "run"
        [] c = "known-task" -> e.t \notin Tasks(g)
        \* a per-device task runs at most once per device, plus once on the main thread
        [] c = "once" -> o.count[e.t] + 1 > (IF e.t \in Dup(g) THEN g.ndev + 1 ELSE 1)
        [] c = "main-thread" -> e.t \in Main(g) /\ e.thr # 0
        [] c = "worker-thread" -> e.t \in Parallel(g) /\ e.thr = 0
        [] c = "inputs-ready" -> ~(Deps(g, e.t) \subseteq EndedTasks(o))
        [] c = "argument-values" -> e.args # g.args[e.t]
        [] c = "nothing-on-main-after-failure" -> e.thr = 0 /\ o.failed # {}}
   [] e.ev = "end" -> IF <<e.t, e.thr>> \in o.started THEN {} ELSE {"was-started"}
   [] e.ev = "fail" -> IF <<e.t, e.thr>> \in o.started THEN {} ELSE {"was-started"}
   [] e.ev = "yield" ->
    {c \in {"phase", "is-target", "evaluated", "delivered-once", "target-value"} :
      CASE c = "phase" -> o.phase # "run"
        [] c = "is-target" -> e.t \notin Targets(g)
        [] c = "evaluated" -> e.t \notin EndedTasks(o)
        [] c = "delivered-once" -> e.t \in o.yielded
        [] c = "target-value" -> e.value # e.t}
   [] e.ev = "raised" ->
    IF e.t \in o.failed THEN {} ELSE {"error-identity"}
   [] e.ev = "refused" -> IF Legal(g) THEN {"refused-legal-graph"} ELSE {}
   [] e.ev = "finish" ->
    {c \in {"error-surfaced", "all-run", "all-delivered"} :
      CASE c = "error-surfaced" -> o.failed # {}
        [] c = "all-run" -> o.failed = {} /\ EndedTasks(o) # ToRun(g)
        [] c = "all-delivered" -> o.failed = {} /\ o.yielded # Targets(g)}
   [] OTHER -> {"unknown-event"}
OEffect(g, o, e) ==
  CASE e.ev = "start" -> [o EXCEPT !.started = @ \union {<<e.t, e.thr>>}, !.count[e.t] = @ + 1]
    [] e.ev = "end" -> [o EXCEPT !.ended = @ \union {<<e.t, e.thr>>}]
    [] e.ev = "fail" -> [o EXCEPT !.failed = @ \union {e.t}]
    [] e.ev = "yield" -> [o EXCEPT !.yielded = @ \union {e.t}]
    [] OTHER -> [o EXCEPT !.phase = "over"]
=============================================================================
