---------------------------- MODULE VerdictDtype ----------------------------
EXTENDS Dtype, TLC, Json, IOUtils
H == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE h
Init == h = 1
Judge == LET cs == DtypeClauses(H[h]) IN
         cs # {} => PrintT(ToJson([reject |-> h, at |-> 0, clauses |-> cs]))
Next == /\ h <= Len(H) /\ Judge /\ h' = h + 1
        /\ (h = Len(H) => PrintT(ToJson([judged |-> h])))
Spec == Init /\ [][Next]_h
=============================================================================
