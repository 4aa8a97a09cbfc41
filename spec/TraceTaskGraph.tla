-------------------------- MODULE TraceTaskGraph --------------------------
(* Judges recorded executions of the real evaluator.  Every line of the     *)
(* trace file is one history [g |-> graph, evs |-> events].                 *)
EXTENDS TaskGraph, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s
Init == h = 1 /\ l = 1 /\ s = Init0(H[1].g)

NextHist == /\ h' = h + 1 /\ l' = 1
            /\ IF h < Len(H) THEN s' = Init0(H[h+1].g)
                             ELSE s' = s /\ PrintT(ToJson([judged |-> h]))
Reject(cs) == PrintT(ToJson([reject |-> h, at |-> l, clauses |-> cs]))
Step ==
  /\ h <= Len(H)
  /\ IF l > Len(H[h].evs)
     THEN /\ (IF s.phase # "over" THEN Reject({"incomplete"}) ELSE TRUE)
          /\ NextHist
     ELSE LET e == H[h].evs[l]
              cs == Clauses(H[h].g, s, e)
          IN IF cs # {}
             THEN Reject(cs) /\ NextHist
             ELSE s' = Effect(H[h].g, s, e) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Step]_<<h, l, s>>
==========================================================================
