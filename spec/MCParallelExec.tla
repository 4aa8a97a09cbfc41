-------------------------- MODULE MCParallelExec --------------------------
(* The engine's own steps, every interleaving, every graph on N tasks: main *)
(* thread runs the leading tasks, starts one worker per device; workers run  *)
(* their islands and put every result in a queue; a progress thread moves    *)
(* queue entries to the results map; the main thread waits for the workers,  *)
(* tells the progress thread to stop, empties the queue (DRAIN), runs the    *)
(* trailing tasks with the results map as cached values, and yields.         *)
EXTENDS ParallelExec, TLC, Json, SequencesExt
CONSTANTS N, D, DRAIN, EMIT, ALLOWFAIL, K
VARIABLES g, asg, st, ord
vars == <<g, asg, st, ord>>
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Graphs ==
  {x \in {[n |-> N, args |-> a, targets |-> Ordered(tg), cached |-> <<>>, accel |-> <<>>,
           main |-> Ordered(m), dup |-> Ordered(du)] :
      a \in {[t \in 1..N |-> Ordered(d[t])] : d \in {f \in [1..N -> SUBSET (1..(N-1))] :
                                                   \A t \in 1..N : \A y \in f[t] : y < t}},
      tg \in (SUBSET (1..N)) \ {{}}, m \in SUBSET (1..N), du \in SUBSET (1..N)} : Legal(x)}

(* K random graphs (for behaviours replayed into the implementation) *)
RandSub(S) == RandomElement(SUBSET S)
RandGraph(k) ==
  LET a == [t \in 1..N |-> Ordered(RandSub(1..(t-1)))]
      sinks == {t \in 1..N : \A u \in 1..N : t \notin Rng(a[u])}
      m == RandSub(1..N)
  IN [n |-> N, args |-> a, targets |-> Ordered(sinks \union RandSub(1..N)), cached |-> <<>>,
      accel |-> <<>>, main |-> Ordered(m),
      dup |-> Ordered(IF RandomElement({TRUE, FALSE}) THEN RandSub({t \in 1..N : a[t] = <<>>}) \ m ELSE {})]
Sampled == {x \in {RandGraph(k) : k \in 1..K} : x.targets # <<>> /\ Legal(x)}

Init == /\ g \in (IF K = 0 THEN Graphs ELSE Sampled)
        /\ asg \in {f \in [Parallel(g) -> 1..D] : \A t \in Parallel(g) : \A u \in Island(g, t) : f[u] = f[t]}
        /\ st = [phase |-> IF Leading(g) = {} THEN "par" ELSE "lead", results |-> {}, queue |-> <<>>,
                 wdone |-> [d \in 1..D |-> {}], cnt |-> [t \in Tasks(g) |-> 0],
                 mdone |-> {}, yielded |-> {}]
        /\ ord = <<>>

Note(t) == ord' = IF EMIT THEN Append(ord, t) ELSE ord
Busy == {d \in 1..D : \E t \in Parallel(g) : asg[t] = d}
Todo(d) == Explored([g EXCEPT !.targets = Ordered(Dup(g) \union {t \in Parallel(g) : asg[t] = d}),
                              !.cached = Ordered(Leading(g))]) \ Leading(g)
Lead(t) == /\ st.phase = "lead" /\ t \in Leading(g) \ st.results
           /\ Deps(g, t) \subseteq st.results
           /\ LET r == st.results \union {t} IN
              st' = [st EXCEPT !.results = r, !.cnt[t] = @ + 1,
                               !.phase = IF r = Leading(g) THEN "par" ELSE "lead"]
           /\ Note(t)
Work(d, t) == /\ st.phase \in {"par"} /\ d \in Busy
              /\ t \in Todo(d) \ st.wdone[d]
              /\ Deps(g, t) \subseteq (st.wdone[d] \union Leading(g))
              /\ st' = [st EXCEPT !.wdone[d] = @ \union {t}, !.cnt[t] = @ + 1,
                                  !.queue = Append(@, t)]
              /\ Note(t)
WorkerFails(d, t) == /\ ALLOWFAIL /\ st.phase = "par" /\ d \in Busy
                     /\ t \in Todo(d) \ st.wdone[d]
                     /\ Deps(g, t) \subseteq (st.wdone[d] \union Leading(g))
                     /\ st' = [st EXCEPT !.phase = "failed"] /\ Note(t)
Progress == /\ st.phase \in {"par", "join"} /\ st.queue # <<>>
            /\ st' = [st EXCEPT !.results = @ \union {Head(st.queue)}, !.queue = Tail(@)]
            /\ UNCHANGED ord
WorkersDone == /\ st.phase = "par" /\ \A d \in Busy : st.wdone[d] = Todo(d)
               /\ st' = [st EXCEPT !.phase = "join"] /\ UNCHANGED ord
ProgressStops == /\ st.phase = "join"
                 /\ st' = [st EXCEPT !.phase = IF DRAIN THEN "drain" ELSE "trail"] /\ UNCHANGED ord
Drain == /\ st.phase = "drain"
         /\ st' = IF st.queue = <<>> THEN [st EXCEPT !.phase = "trail"]
                  ELSE [st EXCEPT !.results = @ \union {Head(st.queue)}, !.queue = Tail(@)]
         /\ UNCHANGED ord
TrailTodo == Explored([g EXCEPT !.targets = Ordered(Trailing(g)), !.cached = Ordered(st.results)]) \ st.results
Trail(t) == /\ st.phase = "trail" /\ t \in TrailTodo \ st.mdone
            /\ Deps(g, t) \subseteq (st.results \union st.mdone)
            /\ st' = [st EXCEPT !.mdone = @ \union {t}, !.cnt[t] = @ + 1]
            /\ Note(t)
Deliver == /\ st.phase = "trail" /\ TrailTodo \subseteq st.mdone
           /\ st' = [st EXCEPT !.phase = "done",
                        !.yielded = (st.results \union st.mdone) \intersect Targets(g)]
           /\ UNCHANGED ord
           /\ (EMIT => PrintT(ToJson([g |-> g, ord |-> ord])))
Next == /\ UNCHANGED <<g, asg>>
        /\ \/ \E t \in Tasks(g) : Lead(t) \/ Trail(t)
           \/ \E d \in 1..D : \E t \in Tasks(g) : Work(d, t) \/ WorkerFails(d, t)
           \/ Progress \/ WorkersDone \/ ProgressStops \/ Drain \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
FailSpec == Init /\ [][Next]_vars

Once == \A t \in Tasks(g) : t \notin Dup(g) => st.cnt[t] <= 1
DupBound == \A t \in Tasks(g) : st.cnt[t] <= D + 1
MainOnMain == \A d \in 1..D : st.wdone[d] \intersect Main(g) = {}
Complete == st.phase = "done" => /\ st.yielded = Targets(g)
                                 /\ \A t \in Tasks(g) : st.cnt[t] >= 1
FailStops == st.phase = "failed" => st.mdone = {} /\ st.yielded = {}
Terminates == <>(st.phase \in {"done", "failed"})
NoDead == st.phase \notin {"done", "failed"} => ENABLED Next
==========================================================================
