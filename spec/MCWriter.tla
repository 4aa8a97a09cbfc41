----------------------------- MODULE MCWriter -----------------------------
(* The writer's own algorithm, step by step, with concurrent savers, a pool  *)
(* of background writers finishing in any order, write failures, a previous  *)
(* checkpoint in the directory, and a crash after any step.                  *)
(* CLEAN = FALSE is the algorithm without the removal of a stale single file *)
(* / index (must be refuted).                                                *)
EXTENDS Writer, TLC
CONSTANTS T,        \* savers
          Sizes,    \* possible tensor sizes
          PER,      \* tensors per saver
          Maxes, CLEAN, EARLYINDEX
VARIABLES w, s, wr, fs
(* wr: [cur |-> names in the open shard, csize, shards |-> seq of [names, st],*)
(*      todo |-> [saver -> remaining], step |-> finalize step, k]            *)
(* fs: set of <<file, content>>, content = set of <<name, val>> or index map *)
vars == <<w, s, wr, fs>>
Nm(t, k) == 10 * t + k
OldEnt == {<<901, 901>>, <<902, 902>>}
OldFs(p) == CASE p = "none" -> {}
              [] p = "single" -> {[f |-> "single", k |-> 0, n |-> 0, c |-> OldEnt]}
              [] p = "multi" -> {[f |-> "shard", k |-> 1, n |-> 2, c |-> {<<901, 901>>}],
                                 [f |-> "shard", k |-> 2, n |-> 2, c |-> {<<902, 902>>}],
                                 [f |-> "index", k |-> 0, n |-> 2, c |-> {<<901, 1>>, <<902, 2>>}]}
Init == /\ w \in [max : Maxes, prior : {"none", "single", "multi"}, seqn : {FALSE}, all : {<<>>}]
        /\ s = WInit(w)
        /\ wr = [cur |-> {}, csize |-> 0, shards |-> <<>>, todo |-> [t \in 1..T |-> PER],
                 step |-> "open", k |-> 1]
        /\ fs = OldFs(w.prior)

Dispatch(r) == IF r.cur = {} THEN r
               ELSE [r EXCEPT !.shards = Append(@, [names |-> r.cur, st |-> "queued", size |-> r.csize, count |-> Cardinality(r.cur)]),
                              !.cur = {}, !.csize = 0]
Save(t) == \E z \in Sizes :
  /\ wr.step = "open" /\ wr.todo[t] > 0
  /\ LET nm == Nm(t, wr.todo[t])
         r1 == IF wr.cur # {} /\ w.max > 0 /\ wr.csize + z > w.max THEN Dispatch(wr) ELSE wr
     IN /\ wr' = [r1 EXCEPT !.cur = @ \union {<<nm, nm>>}, !.csize = @ + z, !.todo[t] = @ - 1]
        /\ s' = WEffect(w, s, [ev |-> "save", ok |-> TRUE, name |-> nm, val |-> nm, size |-> z])
  /\ UNCHANGED <<w, fs>>
Put(file) == fs' = {x \in fs : ~(x.f = file.f /\ x.k = file.k /\ x.n = file.n)} \union {file}
WriteShard(i) ==
  /\ i \in DOMAIN wr.shards /\ wr.shards[i].st = "queued"
  /\ Put([f |-> "tmp", k |-> i, n |-> 0, c |-> wr.shards[i].names])
  /\ wr' = [wr EXCEPT !.shards[i].st = "written"]
  /\ UNCHANGED <<w, s>>
FailShard(i) ==
  /\ i \in DOMAIN wr.shards /\ wr.shards[i].st = "queued"
  /\ wr' = [wr EXCEPT !.shards[i].st = "failed"]
  /\ s' = WEffect(w, s, [ev |-> "fault"])
  /\ UNCHANGED <<w, fs>>
Begin == /\ wr.step = "open" /\ \A t \in 1..T : wr.todo[t] = 0
         /\ wr' = [Dispatch(wr) EXCEPT !.step = "wait"]
         /\ UNCHANGED <<w, s, fs>>
Settled == \A i \in DOMAIN wr.shards : wr.shards[i].st # "queued"
Raise == /\ wr.step = "wait" /\ \E i \in DOMAIN wr.shards : wr.shards[i].st = "failed"
         /\ wr' = [wr EXCEPT !.step = "error"]
         /\ UNCHANGED <<w, s, fs>>
Joined == /\ wr.step = "wait" /\ \A i \in DOMAIN wr.shards : wr.shards[i].st = "written"
          /\ wr' = [wr EXCEPT !.step = IF CLEAN THEN "clean1" ELSE IF EARLYINDEX THEN "index" ELSE "rename"]
          /\ UNCHANGED <<w, s, fs>>
NS == Len(wr.shards)
Clean1 == /\ wr.step = "clean1"
          /\ fs' = {x \in fs : x.f # "index"}
          /\ wr' = [wr EXCEPT !.step = "clean2"] /\ UNCHANGED <<w, s>>
Clean2 == /\ wr.step = "clean2"
          /\ fs' = IF NS > 1 THEN {x \in fs : x.f # "single"} ELSE fs
          /\ wr' = [wr EXCEPT !.step = IF EARLYINDEX THEN "index" ELSE "rename"] /\ UNCHANGED <<w, s>>
AfterRename == IF NS > 1 /\ ~EARLYINDEX THEN "index" ELSE "done"
Rename == /\ wr.step = "rename"
          /\ IF wr.k > NS THEN wr' = [wr EXCEPT !.step = AfterRename] /\ fs' = fs
             ELSE /\ LET src == CHOOSE x \in fs : x.f = "tmp" /\ x.k = wr.k
                         dst == IF NS = 1 THEN [f |-> "single", k |-> 0, n |-> 0, c |-> src.c]
                                ELSE [f |-> "shard", k |-> wr.k, n |-> NS, c |-> src.c]
                     IN fs' = {x \in fs \ {src} : ~(x.f = dst.f /\ x.k = dst.k /\ x.n = dst.n)} \union {dst}
                  /\ wr' = [wr EXCEPT !.k = @ + 1]
          /\ UNCHANGED <<w, s>>
Index == /\ wr.step = "index"
         /\ fs' = {x \in fs : x.f # "index"} \union
                  {[f |-> "index", k |-> 0, n |-> NS,
                    c |-> UNION {{<<p[1], i>> : p \in wr.shards[i].names} : i \in 1..NS}]}
         /\ wr' = [wr EXCEPT !.step = IF EARLYINDEX THEN "rename" ELSE "done"] /\ UNCHANGED <<w, s>>
Next == \/ \E t \in 1..T : Save(t)
        \/ \E i \in 1..(T * PER) : WriteShard(i) \/ FailShard(i)
        \/ Begin \/ Raise \/ Joined \/ Clean1 \/ Clean2 \/ Rename \/ Index
Spec == Init /\ [][Next]_vars

(* what a reader that prefers the index (resp. the single file) finds *)
Single == {x \in fs : x.f = "single"}
Idx == {x \in fs : x.f = "index"}
OfIndex(ix) ==
  LET sh(i) == {x \in fs : x.f = "shard" /\ x.k = i /\ x.n = ix.n}
      found == {p \in UNION {x.c : x \in UNION {sh(q[2]) : q \in ix.c}} :
                  \E q \in ix.c : q[1] = p[1] /\ \E x \in sh(q[2]) : p \in x.c}
  IN IF {p[1] : p \in found} = {q[1] : q \in ix.c} THEN [st |-> "ok", c |-> found]
     ELSE [st |-> "mixed", c |-> {}]
ReadIndexFirst == IF Idx # {} THEN OfIndex(CHOOSE x \in Idx : TRUE)
                  ELSE IF Single # {} THEN [st |-> "ok", c |-> (CHOOSE x \in Single : TRUE).c]
                  ELSE [st |-> "none", c |-> {}]
ReadSingleFirst == IF Single # {} THEN [st |-> "ok", c |-> (CHOOSE x \in Single : TRUE).c]
                   ELSE IF Idx # {} THEN OfIndex(CHOOSE x \in Idx : TRUE)
                   ELSE [st |-> "none", c |-> {}]
Good(v) == v.st = "none" \/ (v.st = "ok" /\ v.c \in {Pairs(s), OldEnt})
(* at every point a crash leaves nothing, the old checkpoint, or the new one *)
CrashConsistent == (wr.step # "open") => Good(ReadIndexFirst) /\ Good(ReadSingleFirst)
CrashWhileOpen == (wr.step = "open") => /\ ReadIndexFirst.st = "none" \/ ReadIndexFirst.c = OldEnt
                                        /\ ReadSingleFirst.st = "none" \/ ReadSingleFirst.c = OldEnt
Exact == wr.step = "done" => /\ ReadIndexFirst = [st |-> "ok", c |-> Pairs(s)]
                             /\ ReadSingleFirst = [st |-> "ok", c |-> Pairs(s)]
ErrorsSurface == wr.step = "done" => ~s.broken
ShardLimit == \A i \in DOMAIN wr.shards : Fits(w, wr.shards[i])
NoLeftovers == wr.step = "done" => \A x \in fs : x.f # "tmp"
Progresses == wr.step \notin {"done", "error"} => ENABLED Next
==========================================================================
