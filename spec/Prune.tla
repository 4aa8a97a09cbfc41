------------------------------- MODULE Prune -------------------------------
(* Keep frequencies of the random sparsifiers, observed on many rows that     *)
(* hold every magnitude 1..cols once: element of rank r is kept with          *)
(* probability density (dare), or density - eps .. density + eps growing      *)
(* linearly with the rank inside its row (della); independently per element,  *)
(* model and tensor.  Counts must lie within six standard deviations.         *)
(* h: method, dens, eps, rows, cols, kept/kept2: per rank count for the two   *)
(* models, both: positions kept in both models, pair: positions kept in both  *)
(* tensors (of the second model), junk: values that are neither kept nor zero *)
EXTENDS Rat, FiniteSets
IsDella(h) == h.method \in {"della", "della_linear"}
D(h) == Q(h.dens[1], h.dens[2])
E(h) == IF h.eps = <<>> THEN Q(15, 100) ELSE Q(h.eps[1], h.eps[2])
Prob(h, r) == IF ~IsDella(h) THEN D(h)
              ELSE Add(Sub(D(h), E(h)), Mul(Mul(I(2), E(h)), Q(r - 1, h.cols - 1)))
(* |x - n p| <= 6 sqrt(n p (1-p)), in whole elements *)
Within(x, n, p) ==
  LET mean == Floor(Mul(I(n), p))
      pm == (1000 * p[1]) \div p[2]
      var == (((n * pm) \div 1000) * (1000 - pm)) \div 1000 + 1
      dev == RAbsI(x - mean) - 1
  IN dev <= 0 \/ dev * dev <= 36 * var
Ranks(h) == 1..h.cols
Milli(p) == Floor(Mul(I(1000), p))
RECURSIVE SumSq(_, _)
SumSq(h, r) == IF r = 0 THEN 0 ELSE Milli(Prob(h, r)) * Milli(Prob(h, r)) + SumSq(h, r - 1)
MeanSq(h) == Q(SumSq(h, h.cols) \div (1000 * h.cols), 1000)   \* to a thousandth
PruneClauses(h) ==
  IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE {x \in {"changed-value", "wrong-keep-rate", "models-share-mask", "tensors-share-mask"} :
     CASE x = "changed-value" -> h.junk # 0
       [] x = "wrong-keep-rate" -> \E r \in Ranks(h) : ~Within(h.kept[r], h.rows, Prob(h, r)) \/ ~Within(h.kept2[r], h.rows, Prob(h, r))
       [] x = "models-share-mask" -> ~Within(h.both, h.rows * h.cols, Mul(D(h), D(h)))
       [] x = "tensors-share-mask" -> ~Within(h.pair, h.rows * h.cols, MeanSq(h))}
=============================================================================
