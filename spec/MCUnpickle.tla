---------------------------- MODULE MCUnpickle ----------------------------
EXTENDS Unpickle, TLC, Json
CONSTANTS L, EMIT
VARIABLES prog, m
Init == prog = <<>> /\ m = MInit
Exec(op) == m.status = "run" /\ Len(prog) < L /\ prog' = Append(prog, op) /\ m' = Step(m, op)
Halt == m.status = "run" /\ m' = Stop(m, "done") /\ UNCHANGED prog
Next == Halt \/ \E op \in Ops : Exec(op)
Spec == Init /\ [][Next]_<<prog, m>>
NothingForeign == m.touched = 0
RefusedAtOnce == (\E i \in DOMAIN prog : prog[i] \in Foreign) => m.status # "done" /\ m.status # "run"
Agrees == m.status \in {"refused", "malformed", "done"} => Run(prog).status = m.status
Emit == (EMIT /\ m.status = "refused" /\ prog # <<>>) => PrintT(ToJson([prog |-> prog, status |-> m.status]))
=============================================================================
