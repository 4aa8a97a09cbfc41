-------------------------------- MODULE Fill --------------------------------
(* Putting a submodel's parameters back into the larger model it is a part of          *)
(* (mergekit/scripts/fill_missing_params.py). A parameter name is a sequence of         *)
(* components; the submodel's names are the base model's below one prefix, or the       *)
(* same names.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Prefixes(base) == {<<>>} \cup {<<n[1]>> : n \in {x \in Range(base) : Len(x) > 1}}
Hits(p, base, sub) == {n \in Range(sub) : p \o n \in Range(base)}
(* the prefix that places most of the submodel; none, unless one places more *)
Best(base, sub) ==
  LET c(p) == Cardinality(Hits(p, base, sub))
      top == {p \in Prefixes(base) : \A q \in Prefixes(base) : c(q) <= c(p)} IN
  IF <<>> \in top THEN {<<>>} ELSE top
(* names that fit below a prefix for some and without one for others are left open *)
Clear(base, sub) == LET plain == Hits(<<>>, base, sub) IN plain = {} \/ UNION {Hits(p, base, sub) : p \in Prefixes(base)} \subseteq plain
Fits(base, sub) == Len(base) > Len(sub)
(* --- transitions: one parameter of the base model after the other ---------------------- *)
FInit == [ph |-> "start", p |-> <<>>, k |-> 0, out |-> <<>>]
FStart(f, base, sub) == IF ~Fits(base, sub) THEN {[f EXCEPT !.ph = "refused"]} ELSE {[f EXCEPT !.ph = "copy", !.p = p] : p \in Best(base, sub)}
From(p, n, sub) == IF \E m \in Range(sub) : n = p \o m THEN "sub" ELSE "base"
FCopy(f, base, sub) ==
  IF f.k = Len(base) THEN {[f EXCEPT !.ph = "done"]}
  ELSE {[f EXCEPT !.k = @ + 1, !.out = Append(@, [n |-> base[f.k + 1], from |-> From(f.p, base[f.k + 1], sub)])]}
FNext(f, base, sub) == CASE f.ph = "start" -> FStart(f, base, sub) [] f.ph = "copy" -> FCopy(f, base, sub) [] OTHER -> {}
Filled(p, base, sub) == {[n |-> n, from |-> From(p, n, sub)] : n \in Range(base)}
(* --- verdict ------------------------------------------------------------------------------ *)
FillClauses(h) ==
  IF ~Clear(h.base, h.sub) THEN {"machinery: not in the domain"}
  ELSE IF ~Fits(h.base, h.sub) THEN IF h.refused THEN {} ELSE {"submodel as large as the base accepted"}
  ELSE IF h.refused THEN {"refused"}
  ELSE (IF {x.n : x \in Range(h.out)} # Range(h.base) THEN {"parameters missing or added"} ELSE {}) \cup
       (IF \E p \in Best(h.base, h.sub) : Range(h.out) = Filled(p, h.base, h.sub) THEN {} ELSE {"wrong parameters filled in"}) \cup
       (IF h.sound THEN {} ELSE {"inconsistent checkpoint"}) \cup
       (IF h.files THEN {} ELSE {"other files of the base model"}) \cup
       (IF h.inputs THEN {} ELSE {"input models changed"}) \cup
       (IF h.place THEN {} ELSE {"written elsewhere"}) \cup
       (IF \A i \in DOMAIN h.repeats : h.repeats[i] = h.repeats[1] THEN {} ELSE {"differs from run to run"})
=============================================================================
