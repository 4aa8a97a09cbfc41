-------------------------------- MODULE Gta --------------------------------
(* The task-vector family of merge methods                                    *)
(* (mergekit/merge_methods/generalized_task_arithmetic.py, sparsify.py):      *)
(* task_arithmetic, ties, dare_*, breadcrumbs*, della*.                       *)
(*                                                                            *)
(* One tensor of one merge:                                                   *)
(*  h.method; h.b: base values; h.x: per model its values; h.cols: row length *)
(*  h.w: per model weight <<n, d>>; h.dens, h.gam, h.eps: per model <<n, d>>  *)
(*  or <<>> when not configured; h.norm, h.resc: "default"|"true"|"false";    *)
(*  h.lam <<n, d>> or <<>>; h.outcome; h.out: result scaled by S.             *)
EXTENDS Rat, FiniteSets, TLC
Consensus(m) == m \in {"ties", "dare_ties", "breadcrumbs_ties", "della"}
Sparsifier(m) == CASE m = "task_arithmetic" -> "none"
                   [] m = "ties" -> "magnitude"
                   [] m \in {"dare_ties", "dare_linear"} -> "random"
                   [] m \in {"breadcrumbs", "breadcrumbs_ties"} -> "outliers"
                   [] m \in {"della", "della_linear"} -> "della"
DefaultNormalize(m) == m \in {"ties", "della"}
DefaultRescale(m) == m \in {"dare_ties", "dare_linear", "della", "della_linear"}
Flag(v, def) == IF v = "default" THEN def ELSE v = "true"
Normalize(h) == Flag(h.norm, DefaultNormalize(h.method))
Rescale(h) == Flag(h.resc, DefaultRescale(h.method))
Or(v, def) == IF v = <<>> THEN def ELSE Q(v[1], v[2])
Density(h, m) == Or(h.dens[m], One)
Gamma(h, m) == Or(h.gam[m], Q(1, 100))
Epsilon(h, m) == Or(h.eps[m], Q(15, 100))
Lambda(h) == Or(h.lam, One)
Weight(h, m) == Q(h.w[m][1], h.w[m][2])
Ms(h) == DOMAIN h.x
Idx(h) == DOMAIN h.b
N(h) == Len(h.b)
Delta(h, m, i) == h.x[m][i] - h.b[i]
Mag(h, m, i) == RAbsI(Delta(h, m, i))
Card(S0) == Cardinality(S0)

(* --- which elements of a task vector survive ------------------------------ *)
Larger(h, m, i) == Card({j \in Idx(h) : Mag(h, m, j) > Mag(h, m, i)})
AtLeast(h, m, i) == Card({j \in Idx(h) : Mag(h, m, j) >= Mag(h, m, i)})   \* includes i
Target(h, m) == Floor(Mul(Density(h, m), I(N(h))))
TopCut(h, m) ==  \* outliers removed by breadcrumbs, limited so that Target survive
  LET g == Floor(Mul(Gamma(h, m), I(N(h))))
      spare == N(h) - Target(h, m)
  IN IF g > spare THEN spare ELSE g
Window(h, m) == IF Sparsifier(h.method) = "outliers" THEN TopCut(h, m) ELSE 0
(* ranked by magnitude, the survivors are positions Window+1 .. Window+Target *)
SureKept(h, m) == {i \in Idx(h) : /\ Larger(h, m, i) >= Window(h, m)
                                  /\ AtLeast(h, m, i) <= Window(h, m) + Target(h, m)}
SureGone(h, m) == {i \in Idx(h) : \/ AtLeast(h, m, i) <= Window(h, m)
                                  \/ Larger(h, m, i) >= Window(h, m) + Target(h, m)}
Masks(h, m) ==
  IF Sparsifier(h.method) = "none" \/ Le(One, Density(h, m)) THEN {Idx(h)}
  ELSE CASE Sparsifier(h.method) = "random" -> IF Le(Density(h, m), Zero) THEN {{}} ELSE SUBSET Idx(h)
         [] Sparsifier(h.method) = "della" -> IF Le(Density(h, m), Zero) THEN {{}} ELSE SUBSET Idx(h)
         [] OTHER -> {SureKept(h, m) \cup t :
                        t \in {u \in SUBSET (Idx(h) \ (SureKept(h, m) \cup SureGone(h, m))) :
                                 Card(u) + Card(SureKept(h, m)) = Target(h, m)}}
RECURSIVE SumMag(_, _, _)
SumMag(h, m, K) == IF K = {} THEN 0 ELSE LET i == CHOOSE j \in K : TRUE IN Mag(h, m, i) + SumMag(h, m, K \ {i})
(* keeping the mass of the task vector *)
Scale(h, m, K) ==
  IF ~Rescale(h) \/ Sparsifier(h.method) = "none" \/ SumMag(h, m, K) = 0 \/ Le(One, Density(h, m)) THEN One
  ELSE Q(SumMag(h, m, Idx(h)), SumMag(h, m, K))

(* --- combining one element --------------------------------------------------*)
(* kept: per model whether the element survived, sc: per model the rescaling *)
Term(h, i, kept, sc, m) == IF kept[m] THEN Mul(Mul(I(Delta(h, m, i)), sc[m]), Weight(h, m)) ELSE Zero
Terms(h, i, kept, sc) == TLCEval([m \in 1..Len(h.x) |-> Term(h, i, kept, sc, m)])
(* the elected sign; an exact cancellation counts as positive (but may fall *)
(* either way once values were rescaled in floating point)                  *)
Signs(h, i, kept, sc) == LET s == SumQ(Terms(h, i, kept, sc)) IN
  IF s = Zero THEN (IF \A m \in Ms(h) : sc[m] = One THEN {1} ELSE {1, 0 - 1}) ELSE {Sgn(s)}
Mixed(h, i, kept, sc, s) ==
  LET t == Terms(h, i, kept, sc)
      A == IF Consensus(h.method) THEN {m \in Ms(h) : Sgn(t[m]) = s} ELSE Ms(h)
      num == SumQ([m \in 1..Len(h.x) |-> IF m \in A THEN t[m] ELSE Zero])
      den == SumQ([m \in 1..Len(h.x) |-> IF m \in A THEN Weight(h, m) ELSE Zero])
  IN IF Normalize(h) /\ den # Zero THEN Div(num, den) ELSE num
Result(h, i, kept, sc, s) == Add(I(h.b[i]), Mul(Lambda(h), Mixed(h, i, kept, sc, s)))

MustFail(h) ==
  \E m \in Ms(h) : LET d == Density(h, m) IN Lt(d, One) /\
     CASE Sparsifier(h.method) = "magnitude" -> Target(h, m) <= 0
       [] Sparsifier(h.method) = "della" -> Lt(Zero, d) /\ (Le(One, Add(d, Epsilon(h, m))) \/ Le(Sub(d, Epsilon(h, m)), Zero))
       [] OTHER -> FALSE

(* --- verdict ---------------------------------------------------------------- *)
S == 1000
ElementFits(h, i, kept, sc) ==
  \E s \in (IF Consensus(h.method) THEN Signs(h, i, kept, sc) ELSE {1}) : Near(h.out[i], Result(h, i, kept, sc, s), S, 3)
IsRandom(h) == Sparsifier(h.method) \in {"random", "della"}
Flags(h, K, i) == TLCEval([m \in 1..Len(h.x) |-> i \in K[m]])
Scales(h, K) == TLCEval([m \in 1..Len(h.x) |-> Scale(h, m, K[m])])
(* random masks: some choice of survivors per model explains all elements *)
Tuples(h) == IF Len(h.x) = 1 THEN {<<k>> : k \in Masks(h, 1)} ELSE Masks(h, 1) \X Masks(h, 2)
RandomFits(h) == \E K \in Tuples(h) : LET sc == Scales(h, K) IN \A i \in Idx(h) : ElementFits(h, i, Flags(h, K, i), sc)
(* ranked masks: survivors are determined except among equal magnitudes at a border *)
All(h, m) == Sparsifier(h.method) = "none" \/ Le(One, Density(h, m))
Some(h, m) == LET a == SureKept(h, m) IN        \* any one admissible mask has the same mass
              a \cup (CHOOSE t \in SUBSET (Idx(h) \ (a \cup SureGone(h, m))) : Card(t) = Target(h, m) - Card(a))
RankedFits(h) ==
  LET keep == TLCEval([m \in 1..Len(h.x) |-> IF All(h, m) THEN Idx(h) ELSE SureKept(h, m)])
      gone == TLCEval([m \in 1..Len(h.x) |-> IF All(h, m) THEN {} ELSE SureGone(h, m)])
      sc == TLCEval([m \in 1..Len(h.x) |-> IF All(h, m) \/ ~Rescale(h) THEN One ELSE Scale(h, m, Some(h, m))])
  IN \A i \in Idx(h) : \E kept \in {k \in [1..Len(h.x) -> BOOLEAN] :
         \A m \in Ms(h) : (i \in keep[m] => k[m]) /\ (i \in gone[m] => ~k[m])} : ElementFits(h, i, kept, sc)
GtaClauses(h) ==
  IF MustFail(h) THEN (IF h.outcome = "error" THEN {} ELSE {"impossible-density-accepted"})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE IF Len(h.out) # N(h) THEN {"wrong-shape"}
  ELSE IF (IF IsRandom(h) THEN RandomFits(h) ELSE RankedFits(h)) THEN {} ELSE {"wrong-value"}
=============================================================================
