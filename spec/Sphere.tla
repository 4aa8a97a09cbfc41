------------------------------ MODULE Sphere ------------------------------
(* Spherical merge methods (slerp, nuslerp, multislerp, karcher in             *)
(* mergekit/merge_methods).  The vectors to be merged (task vectors when a     *)
(* base is used) lie in one plane and are described by whole-degree angles     *)
(* and whole-number lengths; the result is observed as plane coordinates.      *)
(*                                                                             *)
(* h: method; a: angle per model (degrees); n: length per model;               *)
(*    w: weight per model <<n, d>> (slerp: <<>>);  t: <<p, q>> (slerp);        *)
(*    base: index of the base among the models (slerp) or 0 / 1 (others: used) *)
(*    normw: "default"|"true"|"false";  outcome;                               *)
(*    x, y: coordinates scaled by 1000;  off: length outside the plane x 1000  *)
EXTENDS Rat, FiniteSets, TLC
T == <<0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791, 22495, 24192, 25882, 27564, 29237, 30902, 32557, 34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947, 48481, 50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182, 61566, 62932, 64279, 65606, 66913, 68200, 69466, 70711, 71934, 73135, 74314, 75471, 76604, 77715, 78801, 79864, 80902, 81915, 82904, 83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879, 90631, 91355, 92050, 92718, 93358, 93969, 94552, 95106, 95630, 96126, 96593, 97030, 97437, 97815, 98163, 98481, 98769, 99027, 99255, 99452, 99619, 99756, 99863, 99939, 99985, 100000>>   \* 10^5 sin d, d = 0..90
RECURSIVE Sin(_)
Sin(d) == IF d < 0 THEN 0 - Sin(0 - d)
          ELSE IF d >= 360 THEN Sin(d % 360)
          ELSE IF d > 180 THEN 0 - Sin(d - 180)
          ELSE IF d > 90 THEN T[180 - d + 1]
          ELSE T[d + 1]
Cos(d) == Sin(d + 90)
Ms(h) == 1..Len(h.a)
K == 1000
(* plane coordinates (times K) of c/10^4 times vector m *)
Vx(h, m, c) == (((c * h.n[m]) \div 10) * (Cos(h.a[m]) \div 10)) \div 10000
Vy(h, m, c) == (((c * h.n[m]) \div 10) * (Sin(h.a[m]) \div 10)) \div 10000
SumS(s) == LET RECURSIVE go(_) go(k) == IF k = 0 THEN 0 ELSE s[k] + go(k - 1) IN go(Len(s))
(* --- two-vector interpolation ------------------------------------------------- *)
(* turn = angle between u and v in 0..180; p/q of the way                         *)
Turn(h, u, v) == LET d == RAbsI(h.a[u] - h.a[v]) % 360 IN IF d > 180 THEN 360 - d ELSE d
(* coefficients (times 10^4) of the two vectors *)
Coef(h, u, v, p, q) ==
  LET th == Turn(h, u, v) ph == (th * p) \div q IN
  IF h.n[u] = 0 \/ h.n[v] = 0 \/ th <= 1 \/ th >= 179
  THEN <<(10000 * (q - p)) \div q, (10000 * p) \div q>>
  ELSE <<(Sin(th - ph) * 10000) \div Sin(th), (Sin(ph) * 10000) \div Sin(th)>>
(* the interpolated point is defined by the table *)
Exact(h, u, v, p, q) ==
  LET th == Turn(h, u, v) IN
  IF p = 0 \/ p = q THEN TRUE
  ELSE IF h.n[u] = 0 \/ h.n[v] = 0 THEN FALSE
  ELSE IF th <= 1 THEN TRUE
  ELSE IF th >= 179 THEN h.method = "slerp"
  ELSE (th * p) % q = 0
First(h) == IF h.method = "slerp" THEN h.base ELSE 1
Second(h) == 3 - First(h)
Frac(h) == IF h.method = "slerp" THEN <<h.t[1], h.t[2]>>
           ELSE LET a == Q(h.w[1][1], h.w[1][2]) b == Q(h.w[2][1], h.w[2][2]) s == Add(a, b)
                IN IF s = Zero THEN <<1, 2>> ELSE Div(b, s)
TwoX(h) == LET f == Frac(h) c == Coef(h, First(h), Second(h), f[1], f[2]) IN Vx(h, First(h), c[1]) + Vx(h, Second(h), c[2])
TwoY(h) == LET f == Frac(h) c == Coef(h, First(h), Second(h), f[1], f[2]) IN Vy(h, First(h), c[1]) + Vy(h, Second(h), c[2])
Defined2(h) == LET f == Frac(h) IN Exact(h, First(h), Second(h), f[1], f[2])
(* --- multislerp: direction of the weighted mean of the unit vectors, length    *)
(* the weighted mean length                                                      *)
RawW(h, m) == Q(h.w[m][1], h.w[m][2])
SumW(h) == SumQ([m \in 1..Len(h.w) |-> RawW(h, m)])
Wm(h, m) == IF h.normw = "false" THEN RawW(h, m) ELSE Div(RawW(h, m), SumW(h))
Scl(q, v) == Floor(Mul(q, I(v)))
Mx(h) == SumS([m \in 1..Len(h.a) |-> Scl(Wm(h, m), Cos(h.a[m]) \div 100)])     \* times 10^3
My(h) == SumS([m \in 1..Len(h.a) |-> Scl(Wm(h, m), Sin(h.a[m]) \div 100)])
Len1(h) == Floor(Mul(SumQ([m \in 1..Len(h.a) |-> Mul(Wm(h, m), I(h.n[m]))]), I(K)))  \* signed length x K
Msq(h) == Mx(h) * Mx(h) + My(h) * My(h)
MultiOK(h) ==
  LET cross == h.x * (My(h) \div 1) - h.y * Mx(h)
      dot == h.x * Mx(h) + h.y * My(h)
      L == RAbsI(Len1(h))
      sq == (h.x \div 4) * (h.x \div 4) + (h.y \div 4) * (h.y \div 4)
      want == (L \div 4) * (L \div 4)
  IN /\ RAbsI(cross) <= 8 * (RAbsI(h.x) + RAbsI(h.y)) + 8 * (RAbsI(Mx(h)) + RAbsI(My(h)))
     /\ (L > 100 => Sgn(<<dot, 1>>) = Sgn(<<Len1(h), 1>>))
     /\ RAbsI(sq - want) <= (L \div 4) * 8 + 200
MultiDefined(h) == Msq(h) > 40000
(* --- karcher: on a great circle the mean direction is the mean angle ------------ *)
Live(h) == {m \in Ms(h) : h.n[m] > 0}
AngleSum(h) == SumS([m \in 1..Len(h.a) |-> IF m \in Live(h) THEN h.a[m] ELSE 0])
MeanLen(h) == (SumS([m \in 1..Len(h.n) |-> h.n[m]]) * K) \div Len(h.n)
KarcherX(h) == (MeanLen(h) * Cos(AngleSum(h) \div Cardinality(Live(h)))) \div 100000
KarcherY(h) == (MeanLen(h) * Sin(AngleSum(h) \div Cardinality(Live(h)))) \div 100000
KarcherDefined(h) == Live(h) # {} /\ AngleSum(h) % Cardinality(Live(h)) = 0
(* --- verdict --------------------------------------------------------------------- *)
Defined(h) == CASE h.method \in {"slerp", "nuslerp"} -> Defined2(h)
                [] h.method = "multislerp" -> MultiDefined(h)
                [] h.method = "karcher" -> KarcherDefined(h)
Tol == 14
Close(a, b) == RAbsI(a - b) <= Tol
MustFail(h) == h.method \in {"slerp", "nuslerp"} /\ Len(h.a) # 2
SphereClauses(h) ==
  IF MustFail(h) THEN (IF h.outcome = "error" THEN {} ELSE {"impossible-merge-accepted"})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE IF \E v \in {h.x, h.y, h.off} : RAbsI(v) >= 5000000 THEN {"not-finite"}
  ELSE IF ~Defined(h) THEN {}
  ELSE IF h.off > Tol THEN {"left-the-plane"}
  ELSE IF CASE h.method \in {"slerp", "nuslerp"} -> Close(h.x, TwoX(h)) /\ Close(h.y, TwoY(h))
            [] h.method = "karcher" -> Close(h.x, KarcherX(h)) /\ Close(h.y, KarcherY(h))
            [] h.method = "multislerp" -> MultiOK(h)
       THEN {} ELSE {"wrong-point"}
=============================================================================
