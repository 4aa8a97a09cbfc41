--------------------------- MODULE MCTaskGraph ---------------------------
(* Exhaustive exploration of TaskGraph over every graph on N tasks, every   *)
(* choice of targets, cached values and failing task, and every order in    *)
(* which ready tasks may be picked.  Also prints every graph as a case for  *)
(* the implementation (printed once, from the initial state).               *)
EXTENDS TaskGraph, TLC, Json, SequencesExt
CONSTANTS N, EMIT
VARIABLES g, s, l

Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Graphs ==
  {[n |-> N, args |-> a, targets |-> Ordered(tg), cached |-> Ordered(c), accel |-> <<>>] :
      a \in {[t \in 1..N |-> Ordered(d[t])] : d \in {f \in [1..N -> SUBSET (1..(N-1))] :
                                                   \A t \in 1..N : \A x \in f[t] : x < t}},
      tg \in (SUBSET (1..N)) \ {{}},
      c \in SUBSET (1..N)}

Emit == EMIT => PrintT(ToJson(g))

Init == /\ g \in Graphs /\ s = Init0(g) /\ l = 0 /\ Emit

Ready == {t \in s.run \ s.done : Deps(g, t) \subseteq (s.done \union Cached(g))}
Events ==
  {[ev |-> "start", t |-> t, args |-> g.args[t], live |-> Ordered(Pending(g, s)),
    dev |-> IF g.args[t] = <<>> THEN "none" ELSE "storage"] : t \in Ready}
  \union {[ev |-> k, t |-> s.cur] : k \in IF s.cur = 0 THEN {} ELSE {"end", "fail"}}
  \union {[ev |-> "yield", t |-> t, value |-> t, dev |-> "storage"] :
             t \in (s.done \intersect Targets(g)) \ s.yielded}
  \union {[ev |-> "raised", t |-> s.failed]}
  \union {[ev |-> "finish", live |-> <<>>]}

Next == \E e \in Events : /\ s.phase # "over"
                          /\ Clauses(g, s, e) = {}
                          /\ s' = Effect(g, s, e)
                          /\ UNCHANGED <<g, l>>
Spec == Init /\ [][Next]_<<g, s, l>> /\ WF_<<g, s, l>>(Next)

(* --- properties of the design ------------------------------------------ *)
OnlyNeeded == s.done \subseteq s.run /\ s.run \intersect Cached(g) = {}
DepsBefore == \A t \in s.done : Deps(g, t) \subseteq (s.done \union Cached(g))
(* nothing a remaining task needs has been dropped *)
NothingLost == \A t \in s.run \ s.done : (Deps(g, t) \intersect s.done) \subseteq s.store
CleanEnd == (s.phase = "over" /\ s.failed = 0) =>
               /\ s.done = s.run
               /\ s.yielded = Targets(g) \ Cached(g)
               /\ \A t \in Targets(g) \ Cached(g) : t \in s.done
NotStuck == s.phase # "over" => ENABLED Next
Terminates == <>(s.phase = "over")
==========================================================================
