------------------------------- MODULE MCFill -------------------------------
(* All small pairs of models, filled step by step; and pairs for the harness.           *)
EXTENDS Fill, Json
CONSTANTS EMIT, NB, NS, WIDE
VARIABLES base, sub, f, mode
vars == <<base, sub, f, mode>>
Comp == IF WIDE THEN {"lm", "vis", "enc", "a", "b", "c"} ELSE {"p", "q"}
Last == IF WIDE THEN {"w", "b", "a"} ELSE {"w", "q"}
Names == {<<x>> : x \in Last} \cup {<<x, y>> : x \in Comp, y \in Last} \cup {<<x, y, z>> : x \in Comp, y \in Comp, z \in Last}
Tails(p) == {Tail(n) : n \in {x \in Range(base) : Len(x) > 1 /\ x[1] = p}}
Init == base = <<>> /\ sub = <<>> /\ f = FInit /\ mode \in {"any", "part"}
Grow == f.ph = "start" /\ sub = <<>> /\ Len(base) < NB /\ \E n \in Names \ Range(base) : base' = Append(base, n) /\ UNCHANGED <<sub, f, mode>>
(* a part of the base model, or anything *)
Pool == IF mode = "part" THEN UNION {Tails(x) : x \in Comp} \cup Range(base) ELSE Names
GrowSub == f.ph = "start" /\ Len(base) >= 2 /\ Len(sub) < NS /\ \E n \in Pool \ Range(sub) : sub' = Append(sub, n) /\ UNCHANGED <<base, f, mode>>
Step == Len(sub) > 0 /\ Len(base) > 0 /\ f' \in FNext(f, base, sub) /\ UNCHANGED <<base, sub, mode>>
Next == Grow \/ GrowSub \/ Step
Spec == Init /\ [][Next]_vars
Done == f.ph = "done"
Result == Done => \E p \in Best(base, sub) : Range(f.out) = Filled(p, base, sub)
Once == Done => Len(f.out) = Len(base) /\ [i \in DOMAIN f.out |-> f.out[i].n] = base
(* a submodel that is everything below one component goes back exactly there *)
Whole == \A p \in Comp : (Done /\ Tails(p) # {} /\ Range(sub) = Tails(p) /\ \A q \in Prefixes(base) \ {<<p>>} : Cardinality(Hits(q, base, sub)) < Len(sub))
           => \A i \in DOMAIN f.out : (f.out[i].from = "sub") = (Len(base[i]) > 1 /\ base[i][1] = p)
(* no more parameters filled in than the submodel has *)
Bound == Done => Cardinality({i \in DOMAIN f.out : f.out[i].from = "sub"}) <= Len(sub)
Refuse == (f.ph = "refused") => Len(base) <= Len(sub)
Emit == (EMIT /\ ((f.ph = "copy" /\ f.k = 0) \/ f.ph = "refused")) => (Clear(base, sub) => PrintT(ToJson([base |-> base, sub |-> sub, best |-> Cardinality(Best(base, sub)), hits |-> Cardinality(Hits(f.p, base, sub))])))
=============================================================================
