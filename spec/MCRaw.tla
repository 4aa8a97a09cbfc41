-------------------------------- MODULE MCRaw --------------------------------
EXTENDS Raw, Json
CONSTANTS EMIT
VARIABLES c, done
Has == {<<1, 2, 3, 4, 5>>, <<1, 3>>, <<5, 3, 4>>}
S(f, v) == [f |-> f, v |-> v]
Sets == { <<>>, <<S(0, 2)>>, <<S(1, 4), S(0, 0)>>, <<S(3, 3), S(2, 8)>> }
Ms == [1..2 -> Has \X Sets]
Init == /\ done = 0
        /\ \E me \in {"linear", "task_arithmetic", "passthrough"}, b \in {0, 2, 7}, bh \in {<<1, 2, 3, 4, 5>>, <<1, 5>>},
              t \in {<<>>, <<S(0, 4)>>, <<S(2, 5)>>}, no \in {"", "yes", "no"}, mo \in {"", "union", "intersection"} :
             c = [method |-> me, models |-> <<>>, base |-> b,
                  bhas |-> IF b = 7 THEN bh ELSE <<>>, topw |-> t, norm |-> no, mode |-> mo, dtype |-> "", stored |-> "float32"]
Next == /\ done = 0 /\ done' = 1
        /\ \E f \in Ms, n \in {1, 2} : c' = [c EXCEPT !.models = [i \in 1..n |-> [id |-> i, has |-> f[i][1], w |-> f[i][2]]]]
Spec == Init /\ [][Next]_<<c, done>>
Fine == done = 1 /\ ~Refused(c) /\ ~Open(c)
(* every tensor of an accepted merge has a value; without a missing tensor the mode does not matter *)
Total == Fine => \A n \in Names(c) : Value(c, n)[2] > 0
Same == (done = 1 /\ Union(c) = Inter(c)) => \A m \in {"", "union", "intersection"} : Names([c EXCEPT !.mode = m]) = Names(c)
(* equal weights: the mean; zero weight: the model does not matter *)
Bounded == (Fine /\ c.method = "linear" /\ Norm(c)) => \A n \in Names(c) :
   LET s == All(c, n) IN (\A k \in DOMAIN s : Weight(c, s[k], n)[1][1] >= 0) =>
     \E a, b \in DOMAIN s : Le(I(Val(c.models[s[a]].id, n)), Value(c, n)) /\ Le(Value(c, n), I(Val(c.models[s[b]].id, n)))
Idle == (Fine /\ c.method = "task_arithmetic") => \A n \in Names(c) :
   (\A k \in DOMAIN With(c, n) : Weight(c, With(c, n)[k], n)[1] = Zero) => Value(c, n) = I(Val(c.base, n))
Emit == (EMIT /\ done = 1 /\ c.norm # "yes" /\ (Refused(c) => c.norm = "" /\ c.topw = <<>>)) => PrintT(ToJson([c |-> c]))
=============================================================================
