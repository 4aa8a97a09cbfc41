------------------------------- MODULE Genome -------------------------------
(* What a genotype means (mergekit/evo/genome.py): numbers per layer group, model,      *)
(* filter set and parameter, read as one merge of the models. Genotype values are in     *)
(* units of 1/16, the values of the merge in units of 1/64.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Params == [linear |-> <<"weight">>, task_arithmetic |-> <<"weight">>, ties |-> <<"weight", "density">>, dare_ties |-> <<"weight", "density">>, slerp |-> <<"t">>]
U == 16
NoNorm == -1
(* d: [method, n (models), base (0 none, n + 1: not one of them), layers, gran, norm, neg, sets, smooth] *)
Groups(d) == IF d.gran > 0 THEN d.layers \div d.gran ELSE 1
Step(d) == IF d.gran > 0 THEN d.gran ELSE d.layers
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x) == IF x > U THEN U ELSE x
Sane(d, p, x) == CASE p = "density" -> Clamp(Abs(x)) [] p = "weight" -> IF d.neg THEN x ELSE Abs(x) [] OTHER -> x
(* the value a layer gets: its group's, or interpolated over all layers *)
Interp(g, i, n) ==
  LET k == Len(g)
      num == i * (k - 1)
      den == IF n > 1 THEN n - 1 ELSE 1
      i0 == num \div den
      i1 == IF i0 + 1 > k - 1 THEN k - 1 ELSE i0 + 1
      fr == num % den IN
  (4 * ((den - fr) * g[i0 + 1] + fr * g[i1 + 1])) \div den
Val(d, x, l, m, s, p) ==
  LET v(g) == Sane(d, Params[d.method][p], x[g][m][s][p]) IN
  IF d.smooth THEN Interp([g \in 1..Groups(d) |-> v(g)], l, d.layers) ELSE 4 * v(l \div Step(d) + 1)
Refused(d) ==
  \/ d.method \in {"ties", "dare_ties", "task_arithmetic"} /\ d.base = 0
  \/ d.method = "slerp" /\ (d.smooth \/ d.sets > 1)
  \/ d.gran > 0 /\ d.layers % d.gran # 0
(* the two models of highest value; the first of them is slerp's base *)
Top(d, x, g) == CHOOSE pr \in (1..d.n) \X (1..d.n) : pr[1] # pr[2] /\ \A m \in 1..d.n : m \in {pr[1], pr[2]} \/ (x[g][m][1][1] <= x[g][pr[2]][1][1] /\ x[g][pr[2]][1][1] <= x[g][pr[1]][1][1])
Second(d, x, g) == LET pr == Top(d, x, g) IN IF x[g][pr[1]][1][1] >= x[g][pr[2]][1][1] THEN pr ELSE <<pr[2], pr[1]>>
NoTies(d, x) == \A g \in 1..Groups(d) : \A i, j \in 1..d.n : i # j => x[g][i][1][1] # x[g][j][1][1]
Normal(d) == IF d.norm = NoNorm THEN d.method \in {"ties", "dare_ties", "linear"} ELSE d.norm = 1
LayerOf(d, x, l) ==
  IF d.method = "slerp"
  THEN LET g == l \div Step(d) + 1 pr == Second(d, x, g) IN
       [src |-> [i \in 1..2 |-> [m |-> pr[i], v |-> <<>>]], base |-> pr[1], d |-> x[g][pr[2]][1][1] - x[g][pr[1]][1][1]]
  ELSE [src |-> [m \in 1..d.n |-> [m |-> m, v |-> [s \in 1..d.sets |-> [p \in DOMAIN Params[d.method] |-> Val(d, x, l, m, s, p)]]]]
                \o (IF d.base > d.n THEN <<[m |-> d.base, v |-> <<>>]>> ELSE <<>>),
        base |-> d.base, d |-> 0]
(* tensors after the layers: those of the last group, but an interpolation's first value *)
(* (as everywhere in mergekit, see Plan)                                                   *)
Meaning(d, x) == [norm |-> Normal(d), layers |-> [l \in 1..d.layers |-> LayerOf(d, x, l - 1)], head |-> LayerOf(d, x, IF d.smooth THEN 0 ELSE d.layers - 1)]
Initial(d) == [g \in 1..Groups(d) |-> [m \in 1..d.n |-> [s \in 1..d.sets |-> [p \in DOMAIN Params[d.method] |-> IF p = 1 THEN U \div d.n ELSE U]]]]
(* --- verdict ------------------------------------------------------------------------------- *)
GenomeClauses(h) ==
  IF Refused(h.d) THEN IF h.made THEN {"accepted a genome that means nothing"} ELSE {}
  ELSE IF h.used # Meaning(h.d, h.x) THEN {"machinery: meaning"}
  ELSE IF ~h.made THEN {"refused"}
  ELSE (IF h.got # h.want THEN {"another merge than the genotype means"} ELSE {}) \cup
       (IF h.flat THEN {} ELSE {"flat genotype means something else"}) \cup
       (IF h.initial THEN {} ELSE {"initial genotype"}) \cup
       (IF h.bf16 THEN {} ELSE {"dtype"})
=============================================================================
