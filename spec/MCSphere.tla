----------------------------- MODULE MCSphere -----------------------------
(* All whole-degree pairs of vectors on a grid; interpolation laws.            *)
EXTENDS Sphere, Json
CONSTANTS EMIT, Angles, Lengths
VARIABLES h, k
Qs == 6
Case(me, a, n, w, t) == [method |-> me, a |-> a, n |-> n, w |-> w, t |-> t, base |-> 1, normw |-> "default", outcome |-> "", x |-> 0, y |-> 0, off |-> 0]
Space == {Case("slerp", <<a, b>>, <<n, m>>, <<>>, <<0, Qs>>) : a \in Angles, b \in Angles, n \in Lengths, m \in Lengths}
Init == h \in Space /\ k = 0
(* walk from the first to the second model *)
Next == k < Qs /\ k' = k + 1 /\ h' = [h EXCEPT !.t = <<k + 1, Qs>>]
Spec == Init /\ [][Next]_<<h, k>>
V(m) == <<Vx(h, m, 10000), Vy(h, m, 10000)>>
P == <<TwoX(h), TwoY(h)>>
(* table identities *)
Circle == \A d \in Angles : RAbsI((Sin(d) \div 10) * (Sin(d) \div 10) + (Cos(d) \div 10) * (Cos(d) \div 10) - 100000000) <= 60000
Start == k = 0 => Close(P[1], V(1)[1]) /\ Close(P[2], V(1)[2])
End == k = Qs => Close(P[1], V(2)[1]) /\ Close(P[2], V(2)[2])
(* equal lengths: the path stays on the circle *)
Sq(p) == (p[1] \div 2) * (p[1] \div 2) + (p[2] \div 2) * (p[2] \div 2)
OnCircle == h.n[1] = h.n[2] /\ h.n[1] > 0 /\ Turn(h, 1, 2) \in 2..178 /\ Defined2(h) =>
   RAbsI(Sq(P) - (h.n[1] * 500) * (h.n[1] * 500)) <= 10000 * h.n[1]
(* walking back is the same path *)
Reverse == Defined2(h) => LET g == [h EXCEPT !.base = 2, !.t = <<Qs - k, Qs>>] IN Close(TwoX(g), P[1]) /\ Close(TwoY(g), P[2])
(* half way between equally long vectors, slerp, nuslerp, multislerp and karcher agree *)
Mid == k = 3 /\ h.n[1] = h.n[2] /\ h.n[1] > 0 /\ RAbsI(h.a[1] - h.a[2]) \in 2..150 /\ Defined2(h) =>
   LET g == [h EXCEPT !.w = <<<<1, 1>>, <<1, 1>>>>, !.outcome = "ok", !.x = P[1], !.y = P[2]] IN
   \A me \in {"nuslerp", "multislerp", "karcher"} : SphereClauses([g EXCEPT !.method = me]) = {}
Emit == EMIT => PrintT(ToJson([c |-> h]))
=============================================================================
