----------------------------- MODULE MCExtract -----------------------------
(* Planning an extraction goes through the modules one after the other. What is   *)
(* done with a module may not depend on those before it, and the entries that name *)
(* the modules saved in full must name exactly those.                              *)
EXTENDS Extract, Json
CONSTANTS LISTED, (* modules are recognised by a list of last name parts that grows *)
          EMIT
Filters == {"none", "layer1", "q", "mlp", "norm", "n1", "emb", "head"}
Requests == {"none", "q", "q0", "nf", "n10"}
(* a small Llama: [key, layer] *)
Mods == <<[key |-> "emb", layer |-> 9, kind |-> "embed"],
          [key |-> "q", layer |-> 0, kind |-> "linear"], [key |-> "mlp", layer |-> 0, kind |-> "linear"], [key |-> "n1", layer |-> 0, kind |-> "other"],
          [key |-> "q", layer |-> 1, kind |-> "linear"], [key |-> "mlp", layer |-> 1, kind |-> "linear"], [key |-> "n1", layer |-> 1, kind |-> "other"],
          [key |-> "nf", layer |-> 9, kind |-> "other"], [key |-> "head", layer |-> 9, kind |-> "embed"]>>
Matches(f, m) == CASE f = "none" -> FALSE [] f = "layer1" -> m.layer = 1 [] f = "norm" -> m.key \in {"n1", "nf"} [] OTHER -> m.key = f
Asked(r, m) == CASE r = "none" -> FALSE [] r = "q0" -> m.key = "q" /\ m.layer = 0 [] r = "n10" -> m.key = "n1" /\ m.layer = 0 [] OTHER -> m.key = r
Cases == [inc : Filters, exc : Filters, req : Requests, embedLora : BOOLEAN, skip : BOOLEAN, tied : BOOLEAN, maxRank : {1, 2, 64}, eps2 : {0, 3, 9}]
Opts(c) == [maxRank |-> c.maxRank, eps2 |-> c.eps2, embedLora |-> c.embedLora, skip |-> c.skip, tied |-> c.tied, filtered |-> c.inc # "none"]
Mod(c, i) == LET m == Mods[i] IN
  [kind |-> m.kind, inc |-> Matches(c.inc, m), exc |-> Matches(c.exc, m), req |-> Asked(c.req, m), sv |-> IF m.kind = "other" THEN <<3>> ELSE <<7, 5, 1>>]
VARIABLES c, i, fate, keys
vars == <<c, i, fate, keys>>
Start == [inc |-> "none", exc |-> "none", req |-> "none", embedLora |-> FALSE, skip |-> FALSE, tied |-> FALSE, maxRank |-> 64, eps2 |-> 0]
Init == c = Start /\ i = 0 /\ fate = <<>> /\ keys = {}
Choose == i = 0 /\ c' \in Cases /\ i' = 1 /\ UNCHANGED <<fate, keys>>
Step == /\ i \in DOMAIN Mods /\ i' = i + 1 /\ UNCHANGED c
        /\ LET f == IF LISTED /\ Mods[i].key \in keys THEN "full" ELSE Fate(Opts(c), Mod(c, i)) IN
           fate' = Append(fate, f) /\ keys' = (IF f = "full" THEN keys \cup {Mods[i].key} ELSE keys)
Next == Choose \/ Step
Spec == Init /\ [][Next]_vars
Over == i > Len(Mods)
OnItsOwn == \A k \in DOMAIN fate : fate[k] = Fate(Opts(c), Mod(c, k))
(* a last name part names every module that ends with it: "norm" also "input_layernorm" *)
Ends(k, key) == k = key \/ (key = "nf" /\ k = "n1")
Entries == {IF \A x \in DOMAIN Mods : Ends(Mods[x].key, Mods[k].key) => fate[x] = "full" THEN [key |-> Mods[k].key, layer |-> 0 - 1] ELSE [key |-> Mods[k].key, layer |-> Mods[k].layer]
            : k \in {x \in DOMAIN fate : fate[x] = "full"}}
ByKey == {[key |-> k, layer |-> 0 - 1] : k \in keys}
Named(es) == {k \in DOMAIN Mods : \E e \in es : (e.layer = 0 - 1 /\ Ends(Mods[k].key, e.key)) \/ (e.layer = Mods[k].layer /\ e.key = Mods[k].key)}
Loadable == Over => Named(IF LISTED THEN ByKey ELSE Entries) = {k \in DOMAIN fate : fate[k] = "full"}
(* nothing left out, nothing cut off: the fine-tuned model *)
Complete == (Over /\ c.inc = "none" /\ c.exc = "none" /\ ~c.skip /\ c.maxRank = 64 /\ c.eps2 = 0) =>
              \A k \in DOMAIN fate : Keeps(Opts(c), Mod(c, k)) = {Len(Mod(c, k).sv)}
Monotone == Over => \A k \in DOMAIN fate : \A n \in Keeps(Opts(c), Mod(c, k)) : \A n2 \in Keeps([Opts(c) EXCEPT !.maxRank = 64, !.eps2 = 0], Mod(c, k)) : n <= n2
Emit == (EMIT /\ i = 1) => PrintT(ToJson([c |-> c]))
=============================================================================
