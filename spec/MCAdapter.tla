----------------------------- MODULE MCAdapter -----------------------------
(* Merges of models with adapters that share one cache directory: a merge finds   *)
(* the applied model in the cache or puts it there, and may stop at any moment.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS ATOMIC,  (* an applied model appears in the cache at once, complete *)
          KEYED,   (* entries for different dtypes are different *)
          LEN, EMIT
Refs == 1..2
Dtypes == {"none", "float32", "bfloat16"}
Keys == Refs \X Dtypes
VARIABLES cache, phase, now, done
vars == <<cache, phase, now, done>>
None == [whole |-> FALSE, there |-> FALSE, dtype |-> "none"]
Idle == [ref |-> 1, dtype |-> "none"]
Key(r, d) == <<r, IF KEYED THEN d ELSE "none">>
Init == cache = [k \in Keys |-> None] /\ phase = "idle" /\ now = Idle /\ done = <<>>
Rec(kind, r, d, v) == Append(done, [kind |-> kind, ref |-> r, dtype |-> d, got |-> v])
Start(r, d) ==
  /\ phase = "idle" /\ Len(done) < LEN
  /\ IF cache[Key(r, d)].there
     THEN done' = Rec("merge", r, d, cache[Key(r, d)]) /\ UNCHANGED <<cache, phase, now>>
     ELSE /\ phase' = "build" /\ now' = [ref |-> r, dtype |-> d] /\ UNCHANGED done
          /\ cache' = (IF ATOMIC THEN cache ELSE [cache EXCEPT ![Key(r, d)] = [whole |-> FALSE, there |-> TRUE, dtype |-> d]])
Refused(r, d) == phase = "idle" /\ Len(done) < LEN /\ done' = Rec("nocache", r, d, None) /\ UNCHANGED <<cache, phase, now>>
Missing(r, d) == phase = "idle" /\ Len(done) < LEN /\ cache[Key(r, d)].there = FALSE /\ done' = Rec("missing", r, d, None)
                 /\ cache' = (IF ATOMIC THEN cache ELSE [cache EXCEPT ![Key(r, d)] = [whole |-> FALSE, there |-> TRUE, dtype |-> d]])
                 /\ UNCHANGED <<phase, now>>
Finish == phase = "build" /\ phase' = "idle"
          /\ LET v == [whole |-> TRUE, there |-> TRUE, dtype |-> now.dtype] IN
             cache' = [cache EXCEPT ![Key(now.ref, now.dtype)] = v] /\ done' = Rec("merge", now.ref, now.dtype, v)
          /\ UNCHANGED now
Crash == phase = "build" /\ phase' = "idle" /\ done' = Rec("crash", now.ref, now.dtype, None) /\ UNCHANGED <<cache, now>>
Next == Finish \/ Crash \/ \E r \in Refs, d \in Dtypes : Start(r, d) \/ Refused(r, d) \/ Missing(r, d)
Spec == Init /\ [][Next]_vars
Right == \A i \in DOMAIN done : done[i].kind = "merge" => done[i].got.whole /\ done[i].got.dtype = done[i].dtype
Emit == (EMIT /\ phase = "idle" /\ Len(done) = LEN) =>
          PrintT(ToJson([s |-> [i \in DOMAIN done |-> [kind |-> done[i].kind, ref |-> done[i].ref, dtype |-> done[i].dtype]]]))
=============================================================================
