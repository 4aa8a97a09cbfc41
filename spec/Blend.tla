------------------------------- MODULE Blend -------------------------------
(* Element-wise merge methods of mergekit/merge_methods besides the task-      *)
(* vector family: linear, passthrough, model_stock, nearswap, ram, ramplus_tl, *)
(* sce, arcee_fusion.  Exact rationals over integer tensors.                   *)
(*                                                                             *)
(* h: method; b: base values or <<>>; x: values per (other) model, row-major;  *)
(*    cols: row length (0 for vectors); embed: embedding-like matrix, whose    *)
(*    inputs may differ in row count; w: weight per model;                     *)
(*    p: [norm, fw: "default"|"true"|"false"; scale, t, r, alpha, eps, topk:   *)
(*        <<n, d>> or <<>>]; even: all rows hold the same pairs (arcee);       *)
(*    outcome, out (scaled by S)                                               *)
EXTENDS Rat, FiniteSets, TLC
S == 1000
Card(s) == Cardinality(s)
Min(s) == CHOOSE a \in s : \A b \in s : a <= b
Max(s) == CHOOSE a \in s : \A b \in s : a >= b
Or(v, def) == IF v = <<>> THEN def ELSE Q(v[1], v[2])
Flag(v, def) == IF v = "default" THEN def ELSE v = "true"
HasBase(h) == h.b # <<>>
Ms(h) == 1..Len(h.x)
Wt(h, m) == Q(h.w[m][1], h.w[m][2])
(* matrices of different height are cut to the common rows: a prefix *)
Size(h) == Min({Len(h.x[m]) : m \in Ms(h)} \cup (IF HasBase(h) THEN {Len(h.b)} ELSE {}))
Idx(h) == 1..Size(h)
SumI(s) == LET RECURSIVE go(_) go(k) == IF k = 0 THEN 0 ELSE s[k] + go(k - 1) IN go(Len(s))
Over(h, f) == SumQ([m \in 1..Len(h.x) |-> f[m]])
D(h, m, i) == h.x[m][i] - h.b[i]
B(h, i) == I(h.b[i])

(* --- linear, passthrough, nearswap ------------------------------------------ *)
LinearAt(h, i) ==
  LET num == Over(h, [m \in Ms(h) |-> Mul(Wt(h, m), I(h.x[m][i]))])
      den == Over(h, [m \in Ms(h) |-> Wt(h, m)])
  IN IF Flag(h.p.norm, TRUE) THEN Div(num, den) ELSE num
PassAt(h, i) == Mul(Or(h.p.scale, One), I(h.x[1][i]))
NearAt(h, i) ==
  LET d == D(h, 1, i) t == Q(h.p.t[1], h.p.t[2]) IN
  IF d = 0 THEN B(h, i)
  ELSE LET r == Div(t, I(RAbsI(d)))
           u == IF Lt(r, Zero) THEN Zero ELSE IF Lt(One, r) THEN One ELSE r
       IN Add(B(h, i), Mul(u, I(d)))

(* --- model_stock -------------------------------------------------------------- *)
(* the elements that share one interpolation ratio: all, or one row *)
Segment(h, i) == IF Flag(h.p.fw, FALSE) /\ h.cols # 0
                 THEN LET r == (i - 1) \div h.cols IN (r * h.cols + 1)..(r * h.cols + h.cols)
                 ELSE Idx(h)
Dot(h, G, m, k) == LET s == {j \in G : D(h, m, j) # 0 /\ D(h, k, j) # 0}
                       RECURSIVE go(_)
                       go(t) == IF t = {} THEN 0 ELSE LET j == Min(t) IN D(h, m, j) * D(h, k, j) + go(t \ {j})
                   IN go(s)
Root(n) == CHOOSE k \in 0..200 : k * k = n
NormI(h, G, m) == Root(Dot(h, G, m, m))
Cos(h, G, m, k) == LET n == NormI(h, G, m) * NormI(h, G, k) IN IF n = 0 THEN Zero ELSE Q(Dot(h, G, m, k), n)
Pairs(h) == {p \in Ms(h) \X Ms(h) : p[1] < p[2]}
RECURSIVE SumPairs(_, _, _)
SumPairs(h, G, P) == IF P = {} THEN Zero ELSE LET p == CHOOSE q \in P : TRUE IN Add(Cos(h, G, p[1], p[2]), SumPairs(h, G, P \ {p}))
StockRatio(h, G) == LET c == Div(SumPairs(h, G, Pairs(h)), I(Card(Pairs(h)))) n == Len(h.x)
                    IN Q(n * c[1], c[2] + (n - 1) * c[1])
StockAt(h, i) == LET t == StockRatio(h, Segment(h, i))
                 IN Add(B(h, i), Mul(t, Q(SumI([m \in 1..Len(h.x) |-> D(h, m, i)]), Len(h.x))))

(* --- ram, ramplus_tl ------------------------------------------------------------ *)
Eps(h) == Or(h.p.eps, Q(1, 100000))
Active(h, m, i) == Lt(Eps(h), I(RAbsI(D(h, m, i))))
Contrib(h, i) == {m \in Ms(h) : Active(h, m, i)}
Rho(h, m) ==
  LET sh == Card({i \in Idx(h) : m \in Contrib(h, i) /\ Card(Contrib(h, i)) > 1})
      un == Card({i \in Idx(h) : Contrib(h, i) = {m}})
  IN IF un = 0 THEN Zero ELSE Q(sh, un)
Boost(h, m) == IF h.method = "ram" THEN One
               ELSE LET a == Or(h.p.alpha, Q(1, 5)) rho == Rho(h, m)
                    IN Add(One, Mul(Or(h.p.r, Q(1, 10)), IF Lt(a, rho) THEN a ELSE rho))
RamAt(h, i) ==
  LET C == Contrib(h, i) IN
  CASE Card(C) = 0 -> B(h, i)
    [] Card(C) = 1 -> LET m == CHOOSE k \in C : TRUE IN Add(B(h, i), Mul(Boost(h, m), I(D(h, m, i))))
    [] OTHER -> Add(B(h, i), Q(SumI([m \in 1..Len(h.x) |-> IF m \in C THEN D(h, m, i) ELSE 0]), Card(C)))

(* --- sce -------------------------------------------------------------------------- *)
(* variance over the models, times Len(x)^2 *)
Var(h, i) == LET n == Len(h.x) s == SumI([m \in 1..n |-> D(h, m, i)])
             IN n * SumI([m \in 1..n |-> D(h, m, i) * D(h, m, i)]) - s * s
Vary(h) == {i \in Idx(h) : Var(h, i) # 0}
Select(h) == Floor(Mul(Or(h.p.topk, One), I(Card(Vary(h)))))
SceMasks(h) ==
  IF Le(One, Or(h.p.topk, One)) THEN {Idx(h)}
  ELSE IF Select(h) <= 0 THEN {{}}
  ELSE LET v == TLCEval([i \in Idx(h) |-> Var(h, i)])
           sure == {i \in Idx(h) : Card({j \in Idx(h) : v[j] >= v[i]}) <= Select(h)}
           edge == {i \in Idx(h) : i \notin sure /\ Card({j \in Idx(h) : v[j] > v[i]}) < Select(h)}
       IN {sure \cup t : t \in {u \in SUBSET edge : Card(u) = Select(h) - Card(sure)}}
Energy(h, K, m) == SumI([i \in Idx(h) |-> IF i \in K THEN D(h, m, i) * D(h, m, i) ELSE 0])
SceAt(h, K, i) ==
  IF i \notin K THEN B(h, i)
  ELSE LET s == SumI([m \in 1..Len(h.x) |-> D(h, m, i)])
           sg == IF s >= 0 THEN 1 ELSE 0 - 1
           A == {m \in Ms(h) : D(h, m, i) * sg > 0}
           num == SumI([m \in 1..Len(h.x) |-> IF m \in A THEN D(h, m, i) * Energy(h, K, m) ELSE 0])
           den == SumI([m \in 1..Len(h.x) |-> IF m \in A THEN Energy(h, K, m) ELSE 0])
       IN IF den = 0 THEN B(h, i) ELSE Add(B(h, i), Q(num, den))

(* --- arcee_fusion ------------------------------------------------------------------- *)
(* each element is taken from one of the two models; within a row, larger       *)
(* changes are taken first; with an even importance across rows the taken       *)
(* changes are those of at least median + 3/2 interquartile range               *)
Change(h, i) == RAbsI(D(h, 1, i))
Row(h, i) == IF h.cols = 0 THEN 0 ELSE (i - 1) \div h.cols
Below(h, v) == Card({j \in Idx(h) : Change(h, j) < v})
UpTo(h, v) == Card({j \in Idx(h) : Change(h, j) <= v})
Quantile(h, k) == LET pos == (k * (Size(h) - 1)) \div 4    \* 0-based position in sorted order
                  IN CHOOSE v \in {Change(h, i) : i \in Idx(h)} : Below(h, v) <= pos /\ pos < UpTo(h, v)
Threshold2(h) == 2 * Quantile(h, 2) + 3 * (Quantile(h, 3) - Quantile(h, 1))  \* doubled
NearI(x, v) == RAbsI(x - S * v) <= 3
ArceeClauses(h) ==
  LET old == {i \in Idx(h) : NearI(h.out[i], h.b[i])}
      new == {i \in Idx(h) : NearI(h.out[i], h.x[1][i])}
      th == Threshold2(h)
  IN {c \in {"neither-model", "smaller-change-first", "wrong-threshold"} :
       CASE c = "neither-model" -> \E i \in Idx(h) : i \notin old /\ i \notin new
         [] c = "smaller-change-first" -> \E i, j \in Idx(h) : Row(h, i) = Row(h, j) /\ i \in new \ old /\ j \in old \ new /\ Change(h, j) > Change(h, i)
         [] c = "wrong-threshold" -> h.even /\ \E i \in Idx(h) :
                \/ 2 * Change(h, i) > th /\ i \notin new
                \/ 2 * Change(h, i) < th /\ i \notin old}

(* --- verdict --------------------------------------------------------------------------- *)
At(h, i) == CASE h.method = "linear" -> LinearAt(h, i)
              [] h.method = "passthrough" -> PassAt(h, i)
              [] h.method = "nearswap" -> NearAt(h, i)
              [] h.method = "model_stock" -> StockAt(h, i)
              [] h.method \in {"ram", "ramplus_tl"} -> RamAt(h, i)
MustFail(h) == \/ h.method = "passthrough" /\ Len(h.x) # 1
               \/ h.method = "model_stock" /\ Len(h.x) < 2
               \/ h.method \in {"nearswap", "arcee_fusion"} /\ Len(h.x) # 1
               \/ h.method # "passthrough" /\ h.mismatch
BlendClauses(h) ==
  IF MustFail(h) THEN (IF h.outcome = "error" THEN {} ELSE {"impossible-merge-accepted"})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE IF h.rows * (IF h.cols = 0 THEN 1 ELSE h.cols) # Size(h) \/ Len(h.out) # Size(h) THEN {"wrong-shape"}
  ELSE IF h.method = "arcee_fusion" THEN ArceeClauses(h)
  ELSE IF h.method = "sce" THEN (IF \E K \in SceMasks(h) : \A i \in Idx(h) : Near(h.out[i], SceAt(h, K, i), S, 3) THEN {} ELSE {"wrong-value"})
  ELSE IF \A i \in Idx(h) : Near(h.out[i], At(h, i), S, 3) THEN {} ELSE {"wrong-value"}
=============================================================================
