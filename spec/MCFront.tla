------------------------------ MODULE MCFront ------------------------------
(* Command lines, token by token; what is proved about reading them, and command lines *)
(* for the harness to run.                                                              *)
EXTENDS Front, Json
CONSTANTS EMIT, STEPS, WIDE
VARIABLES ts, a, o
vars == <<ts, a, o>>
Vals == IF WIDE THEN {-4, 1, 2, 4, 6} ELSE {2, 4}
Tok(n, V) == {[o |-> n, v |-> x] : x \in V}
Flags == IF WIDE THEN {"normalize", "int8", "bf16", "naive", "card", "tok", "safe"} ELSE {"normalize", "card"}
Tokens == Tok("merge", IF WIDE THEN 1..3 ELSE 1..2) \cup Tok("weight", Vals) \cup Tok("density", {x \in Vals : x > 0}) \cup Tok("base", IF WIDE THEN 1..4 ELSE {2, 3})
  \cup Tok("method", IF WIDE THEN DOMAIN Methods ELSE {2, 4}) \cup UNION {Tok(f, {0, 1}) : f \in Flags}
  \cup (IF WIDE THEN Tok("shard", {300, 1000, 100000}) \cup Tok("seed", {3, 7}) ELSE {})
Plain(t) == t.o \in {"merge", "weight"}
Two == <<[o |-> "merge", v |-> 1], [o |-> "merge", v |-> 2]>>
Starts == {Two \o <<[o |-> "base", v |-> b]>> : b \in 1..4} \cup {Two \o <<[o |-> "method", v |-> m]>> : m \in {2, 9, 10}}
  \cup {Two \o <<[o |-> "method", v |-> m], [o |-> "base", v |-> b]>> : m \in {3, 4, 5, 6, 7, 8}, b \in {2, 4}}
  \cup {Two \o <<[o |-> "method", v |-> 4], [o |-> "base", v |-> b], [o |-> "weight", v |-> w]>> : b \in {1, 2}, w \in {1, 2, 4}}
Init == /\ ts \in IF WIDE THEN Starts ELSE {<<>>}
        /\ a = LAll(LInit, ts) /\ o = OInit
Add(t) == ts' = Append(ts, t) /\ a' = LRead(a, t) /\ o' = ORead(o, t)
Next == /\ Len(ts) < STEPS
        /\ \E t \in Tokens : (t.o = "merge" => ~\E i \in DOMAIN a.merge : a.merge[i] = t.v) /\ Add(t)
Spec == Init /\ [][Next]_vars
M == LMeaning(a)
(* reading in one go is reading token by token *)
Steps == a = LAll(LInit, ts) /\ o = OAll(OInit, ts)
(* tokens of different options can be exchanged *)
Swap(i) == SubSeq(ts, 1, i - 1) \o <<ts[i + 1], ts[i]>> \o SubSeq(ts, i + 2, Len(ts))
Commute == \A i \in 1..(Len(ts) - 1) : ts[i].o # ts[i + 1].o => LAll(LInit, Swap(i)) = a /\ OAll(OInit, Swap(i)) = o
(* one weight means that weight for each model *)
Repeat(v, n) == [i \in 1..n |-> v]
Broadcast == (Len(a.ws) = 1 /\ a.method # "slerp" /\ LModels(a) # <<>>) => LMeaning([a EXCEPT !.ws = Repeat(a.ws[1], Len(LModels(a)))]) = M
Default == (a.ws = <<>> /\ a.method # "slerp") => LMeaning([a EXCEPT !.ws = <<One>>]) = M
(* naming the base model among the models, last, changes nothing *)
Listed == (a.base # 0 /\ Len(LModels(a)) > Len(a.merge)) => LMeaning([a EXCEPT !.merge = LModels(a)]) = M
Reach == ~M.refused /\ Len(M.models) = 3 /\ a.method = "slerp"
Emit == (EMIT /\ Len(ts) \in {4, 6, 8, 9, STEPS}) => PrintT(ToJson([toks |-> ts, m |-> M]))
=============================================================================
