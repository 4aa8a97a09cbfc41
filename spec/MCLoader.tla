----------------------------- MODULE MCLoader -----------------------------
(* The lazily opened shard, shared by threads, step by step.  LOCK = FALSE   *)
(* (no mutual exclusion between opening a shard and reading it) must be      *)
(* refuted.  With EMIT the complete single-threaded histories are printed as *)
(* cases for the implementation.                                             *)
EXTENDS Loader, TLC, Json
CONSTANTS T, L, LOCK, EMIT, NSH
VARIABLES ck, shard, cur, lock, pc, ops, bad, log
vars == <<ck, shard, cur, lock, pc, ops, bad, log>>
NS == {"a", "b", "c"}
Requests ==
  {[ev |-> "get", key |-> n, aliases |-> <<>>, must |-> TRUE] : n \in NS}
  \union {[ev |-> "get", key |-> "x", aliases |-> <<>>, must |-> TRUE],
          [ev |-> "get", key |-> "x", aliases |-> <<"y", "b", "c">>, must |-> FALSE],
          [ev |-> "get", key |-> "x", aliases |-> <<"y">>, must |-> FALSE],
          [ev |-> "get", key |-> "a", aliases |-> <<"b">>, must |-> TRUE],
          [ev |-> "flush"]}
Idle == [at |-> "idle", e |-> [ev |-> "none"], name |-> ""]
Init == /\ ck = [has |-> <<[name |-> "a", val |-> 1], [name |-> "b", val |-> 2], [name |-> "c", val |-> 3]>>]
        /\ shard \in [NS -> 1..NSH]
        /\ cur = 0 /\ lock = 0 /\ bad = FALSE /\ log = <<>>
        /\ pc = [t \in 1..T |-> Idle] /\ ops = [t \in 1..T |-> L]
Call(t) == /\ pc[t].at = "idle" /\ ops[t] > 0
           /\ \E e \in Requests :
                pc' = [pc EXCEPT ![t] = [at |-> "enter", e |-> e,
                                         name |-> IF e.ev = "get" THEN Answer(ck, e.key, e.aliases) ELSE ""]]
           /\ ops' = [ops EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<ck, shard, cur, lock, bad, log>>
Enter(t) == /\ pc[t].at = "enter" /\ (LOCK => lock = 0)
            /\ lock' = t /\ pc' = [pc EXCEPT ![t].at = "open"]
            /\ UNCHANGED <<ck, shard, cur, ops, bad, log>>
Open(t) == /\ pc[t].at = "open"
           /\ IF pc[t].e.ev = "flush" THEN cur' = 0
              ELSE IF pc[t].name = "" THEN cur' = cur
              ELSE cur' = IF cur # 0 /\ shard[pc[t].name] = cur THEN cur ELSE shard[pc[t].name]
           /\ pc' = [pc EXCEPT ![t].at = "read"]
           /\ UNCHANGED <<ck, shard, lock, ops, bad, log>>
Read(t) == /\ pc[t].at = "read"
           /\ LET e == pc[t].e
                  res == IF pc[t].name = "" THEN [k |-> IF e.must THEN "keyerror" ELSE "none", v |-> 0]
                         ELSE IF cur = shard[pc[t].name] THEN [k |-> "val", v |-> ValOf(ck, pc[t].name)]
                         ELSE [k |-> "keyerror", v |-> 0]
                  ev == IF e.ev = "flush" THEN e ELSE [ev |-> "get", key |-> e.key, aliases |-> e.aliases, must |-> e.must, res |-> res]
              IN /\ bad' = (bad \/ LClauses(ck, LInit(ck), ev) # {})
                 /\ log' = IF EMIT THEN Append(log, ev) ELSE log
           /\ lock' = IF LOCK THEN 0 ELSE lock
           /\ pc' = [pc EXCEPT ![t] = Idle]
           /\ UNCHANGED <<ck, shard, cur, ops>>
Next == \E t \in 1..T : Call(t) \/ Enter(t) \/ Open(t) \/ Read(t)
Spec == Init /\ [][Next]_vars
Faithful == ~bad
Emit == (EMIT /\ \A t \in 1..T : ops[t] = 0 /\ pc[t].at = "idle") =>
           PrintT(ToJson([shard |-> shard, log |-> log]))
=============================================================================
