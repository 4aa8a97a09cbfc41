------------------------------ MODULE MCDtype ------------------------------
(* All combinations of stored, working and output formats.                     *)
EXTENDS Dtype, Json
CONSTANTS EMIT, Formats, Xs
MCXs == <<257, 258, -1029, 2049, 2050, -2051, 4098, 511, 3, -30001>>
VARIABLES c, i
Opt == Formats \cup {""}
Init == /\ i = 1
        /\ \E m \in {"linear", "pass", "task", "slerp1"}, a \in Formats, b \in Formats, d \in Opt, o \in Opt :
             c = [method |-> m, types |-> IF m = "pass" THEN <<a>> ELSE <<a, b>>, dtype |-> d, out |-> o, fixed |-> "",
                  vals |-> IF m = "pass" THEN <<[k \in 1..Len(Xs) |-> Rnd(a, Xs[k])]>>
                           ELSE <<[k \in 1..Len(Xs) |-> Rnd(a, Xs[k])], [k \in 1..Len(Xs) |-> Rnd(b, Xs[Len(Xs) + 1 - k])]>>]
Next == i < Len(Xs) /\ i' = i + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, i>>
(* rounding is idempotent, monotone, odd and never loses a representable number *)
Idem == \A t \in Formats : Rnd(t, Rnd(t, Xs[i])) = Rnd(t, Xs[i])
Mono == \A t \in Formats : \A j \in 1..Len(Xs) : Xs[i] <= Xs[j] => Rnd(t, Xs[i]) <= Rnd(t, Xs[j])
Odd == \A t \in Formats : Rnd(t, 0 - Xs[i]) = 0 - Rnd(t, Xs[i])
HalfUlp == \A t \in Formats : Abs(Rnd(t, Xs[i]) - Xs[i]) * 2 <= Pow2(Log(Abs(Xs[i])) + 1 - Bits(t)) \/ Rnd(t, Xs[i]) = Xs[i]
(* a passthrough without formats is the identity; the output is representable  *)
Copy == (c.method = "pass" /\ c.dtype = "" /\ c.out = "") => Out(c, i) = c.vals[1][i]
Fits == Rnd(Stored(c), Out(c, i)) = Out(c, i)
(* working in a wide format rounds only once *)
Once == (c.dtype = "float32" /\ c.method = "linear") => Out(c, i) = Rnd(Stored(c), c.vals[1][i] + c.vals[2][i])
Emit == (EMIT /\ i = 1) => PrintT(ToJson([c |-> c]))
=============================================================================
