-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic on pairs <<numerator, denominator>>, kept in   *)
(* lowest terms with a positive denominator.                                *)
EXTENDS Integers, Sequences
RAbsI(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Q(n, d) == LET s == IF d < 0 THEN 0 - 1 ELSE 1
               g == LET x == GCD(RAbsI(n), RAbsI(d)) IN IF x = 0 THEN 1 ELSE x
           IN <<(s * n) \div g, (s * d) \div g>>
I(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
Add(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Neg(a) == <<0 - a[1], a[2]>>
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == Q(a[1] * b[1], a[2] * b[2])
Div(a, b) == Q(a[1] * b[2], a[2] * b[1])
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
AbsQ(a) == <<RAbsI(a[1]), a[2]>>
Sgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN 0 - 1 ELSE 0
Floor(a) == a[1] \div a[2]
RECURSIVE SumQ(_)
SumQ(s) == IF s = <<>> THEN Zero ELSE Add(s[1], SumQ(Tail(s)))
(* an observed integer x stands for x/S; near: within tol/S of the rational *)
Near(x, a, S, tol) == RAbsI(x - S * (a[1] \div a[2]) - (S * (a[1] % a[2])) \div a[2]) <= tol
=============================================================================
