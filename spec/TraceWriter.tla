-------------------------- MODULE TraceWriter --------------------------
(* Judges recorded executions of the real evaluator.  Every line of the     *)
(* trace file is one history [g |-> graph, evs |-> events].                 *)
EXTENDS Writer, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s
Init == h = 1 /\ l = 1 /\ s = WInit(H[1].g)

NextHist == /\ h' = h + 1 /\ l' = 1
            /\ IF h < Len(H) THEN s' = WInit(H[h+1].g)
                             ELSE s' = s /\ PrintT(ToJson([judged |-> h]))
Reject(cs) == PrintT(ToJson([reject |-> h, at |-> l, clauses |-> cs]))
Step ==
  /\ h <= Len(H)
  /\ IF l > Len(H[h].evs)
     THEN /\ (IF s.phase # "closed" THEN Reject({"incomplete"}) ELSE TRUE)
          /\ NextHist
     ELSE LET e == H[h].evs[l]
              cs == WClauses(H[h].g, s, e)
          IN IF cs # {}
             THEN Reject(cs) /\ NextHist
             ELSE s' = WEffect(H[h].g, s, e) /\ l' = l + 1 /\ h' = h
Spec == Init /\ [][Step]_<<h, l, s>>
==========================================================================
