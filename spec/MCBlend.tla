------------------------------ MODULE MCBlend ------------------------------
(* All small merges; laws every method of Blend.tla obeys.                     *)
EXTENDS Blend, Json
CONSTANTS EMIT, Vals
VARIABLES h, done
P(norm, fw, t, topk) == [norm |-> norm, fw |-> fw, scale |-> <<3, 2>>, t |-> t, r |-> <<>>, alpha |-> <<>>, eps |-> <<>>, topk |-> topk]
T2 == [1..2 -> Vals]
Case(me, b, xs, w, p) == [method |-> me, b |-> b, x |-> xs, cols |-> 0, rows |-> 2, embed |-> FALSE, mismatch |-> FALSE, w |-> w, p |-> p,
                          even |-> TRUE, outcome |-> "", out |-> <<>>]
Two == {<<x, y>> : x \in T2, y \in T2}
W2 == {<<<<1, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<0 - 3, 2>>>>}
Space ==
  {Case("linear", <<>>, xs, w, P(n, "default", <<>>, <<>>)) : xs \in Two, w \in W2, n \in {"default", "false"}} \cup
  {Case("passthrough", <<>>, <<x>>, <<<<1, 1>>>>, P("default", "default", <<>>, <<>>)) : x \in T2} \cup
  {Case("nearswap", b, <<x>>, <<<<1, 1>>>>, P("default", "default", t, <<>>)) : b \in T2, x \in T2, t \in {<<0, 1>>, <<1, 2>>, <<3, 1>>}} \cup
  {Case(me, b, xs, <<<<1, 1>>, <<1, 1>>>>, P("default", "default", <<>>, <<>>)) : me \in {"ram", "ramplus_tl"}, b \in T2, xs \in Two} \cup
  {Case("sce", b, xs, <<<<1, 1>>, <<1, 1>>>>, P("default", "default", <<>>, k)) : b \in T2, xs \in Two, k \in {<<>>, <<1, 2>>, <<0, 1>>}} \cup
  {Case("arcee_fusion", b, <<x>>, <<<<1, 1>>>>, P("default", "default", <<>>, <<>>)) : b \in T2, x \in T2}
Init == h \in Space /\ done = FALSE
(* one admissible result *)
Val(i) == IF h.method = "sce" THEN SceAt(h, CHOOSE K \in SceMasks(h) : TRUE, i)
          ELSE IF h.method = "arcee_fusion" THEN (IF 2 * Change(h, i) >= Threshold2(h) THEN I(h.x[1][i]) ELSE B(h, i))
          ELSE At(h, i)
Scaled(q) == (q[1] * S) \div q[2]
Next == /\ ~done /\ done' = TRUE
        /\ h' = [h EXCEPT !.outcome = "ok", !.out = [i \in Idx(h) |-> Scaled(Val(i))]]
Spec == Init /\ [][Next]_<<h, done>>
Accepted == done => BlendClauses(h) = {}
(* merging copies of one model (with the base equal) gives that model *)
AllSame == \A m \in Ms(h) : h.x[m] = h.x[1] /\ (HasBase(h) => h.b = h.x[1])
Idempotent == AllSame /\ h.method # "passthrough" /\ (h.method = "linear" => h.p.norm = "default") =>
   \A i \in Idx(h) : Val(i) = I(h.x[1][i])
(* an element no model changed keeps the base value *)
Unchanged == HasBase(h) => \A i \in Idx(h) : (\A m \in Ms(h) : h.x[m][i] = h.b[i]) => Val(i) = B(h, i)
(* results stay between the smallest and largest input (unless boosted / extrapolating) *)
InHull == h.method \in {"nearswap", "ram", "sce", "arcee_fusion"} =>
   \A i \in Idx(h) : LET V == {h.x[m][i] : m \in Ms(h)} \cup {h.b[i]} IN Le(I(Min(V)), Val(i)) /\ Le(Val(i), I(Max(V)))
(* the order of equally weighted models does not matter *)
Swap == [h EXCEPT !.x = IF Len(h.x) = 2 THEN <<h.x[2], h.x[1]>> ELSE h.x, !.w = IF Len(h.w) = 2 THEN <<h.w[2], h.w[1]>> ELSE h.w]
Symmetric == ~done /\ h.method \in {"linear", "ram", "ramplus_tl"} => \A i \in Idx(h) : At(h, i) = At(Swap, i)
Emit == (EMIT /\ ~done) => PrintT(ToJson([c |-> h]))
=============================================================================
