------------------------------- MODULE MCLone -------------------------------
(* every method, number of models and distribution of a weight *)
EXTENDS Lone, TLC, Json
VARIABLES c, done
Init == /\ done = FALSE
        /\ \E m \in Methods, b \in BOOLEAN, n \in 1..3, w \in {"all", "base", "other"} :
             c = [method |-> m, base |-> b, others |-> n, have |-> w] /\ Valid(c)
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>
(* a merge is never both refused and determined; each method has a valid use *)
Consistent == ~(MustFail(c) /\ LoneOK(c))
Usable == \A m \in Methods : \E b \in BOOLEAN, n \in 1..3 : LET k == [method |-> m, base |-> b, others |-> n, have |-> "all"] IN Valid(k) /\ ~MustFail(k)
Emit == (~done) => PrintT(ToJson([c |-> c]))
=============================================================================
