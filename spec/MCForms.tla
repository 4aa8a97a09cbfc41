------------------------------ MODULE MCForms ------------------------------
(* Every rewriting, applied any number of times, keeps the meaning.                 *)
EXTENDS Forms, Json, IOUtils
CONSTANTS EMIT, STEPS, NUMS
Num(n) == [kind |-> "num", g |-> <<n>>, v |-> <<>>]
Gr(a, b) == [kind |-> "grad", g |-> <<a, b>>, v |-> <<>>]
Some == {NoSet, Gr(1, 3), Cond(<<[f |-> <<"q", "_", "proj">>, s |-> Num(3)]>>), Cond(<<[f |-> <<"mlp">>, s |-> Gr(2, 4)], [f |-> <<>>, s |-> Num(2)]>>)} \cup {Num(n) : n \in NUMS}
Src(m, n, w) == [m |-> m, lo |-> 0, hi |-> n, w |-> w]
Start == {[method |-> "task", form |-> f, depth |-> <<2, 2>>, base |-> 2, modw |-> mw, modlam |-> NoSet, gw |-> gw, glam |-> gl,
           slices |-> <<[base |-> 0, w |-> NoSet, lam |-> NoSet, src |-> <<Src(1, 2, w)>>]>>] :
          f \in {"models", "mod-models"}, mw \in Some, gw \in Some, gl \in {NoSet, Num(3), Gr(1, 3)}, w \in Some}
(* or: configurations made by the harness *)
Given == LET g == ndJsonDeserialize(IOEnv.FORMS) IN {g[i] : i \in DOMAIN g}
VARIABLES c0, c, chain
vars == <<c0, c, chain>>
Init == /\ c0 \in {x \in Start : x.form \notin {"models"} \/ NoneS(x.modw)} /\ c = c0 /\ chain = <<c0>>
Respell == \E x \in {y \in Spell(c) : Len(chain) % 2 = 1} : c' = x /\ chain' = Append(chain, x)
Rewrite == \E x \in Structural(c) : c' = x /\ chain' = Append(chain, x)
Next == Len(chain) <= STEPS /\ (Respell \/ Rewrite) /\ UNCHANGED c0
Spec == Init /\ [][Next]_vars
SameMeaning == Meaning(c) = Meaning(c0)
Reach == c.form = "mod-slices" /\ Len(c.slices) = 2
Emit == (EMIT /\ Len(chain) = STEPS + 1) => PrintT(ToJson([chain |-> chain]))
=============================================================================
