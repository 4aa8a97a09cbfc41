------------------------------- MODULE MCGta -------------------------------
(* All small one- and two-model merges; laws of the task-vector methods.      *)
EXTENDS Gta, TLC, Json
CONSTANTS EMIT, Vals, Lens
VARIABLES h, K, step
Methods == {"task_arithmetic", "ties", "breadcrumbs", "breadcrumbs_ties", "dare_linear", "dare_ties"}
Tensors == UNION {[1..n -> Vals] : n \in Lens}
Base(n) == [i \in 1..n |-> i]
Space == {[method |-> me, b |-> Base(Len(x)), x |-> <<x, y>>, cols |-> Len(x), w |-> <<w1, <<1, 2>>>>,
           dens |-> <<d, <<>>>>, gam |-> <<g, <<1, 4>>>>, eps |-> <<<<>>, <<>>>>, norm |-> nf, resc |-> rf,
           lam |-> <<>>, outcome |-> "", out |-> <<>>] :
            me \in Methods, x \in Tensors, y \in Tensors, w1 \in {<<1, 1>>, <<0 - 3, 2>>},
            d \in {<<>>, <<1, 2>>}, g \in {<<>>, <<1, 2>>}, nf \in {"default", "true"}, rf \in {"default", "true"}}
(* evaluation: choose survivors model by model, then combine *)
Init == /\ h \in {c \in Space : Len(c.x[1]) = Len(c.x[2])} /\ K = <<>> /\ step = "mask"
Mask == /\ step = "mask" /\ ~MustFail(h)
        /\ IF Len(K) < Len(h.x) THEN \E k \in Masks(h, Len(K) + 1) : K' = Append(K, k) /\ UNCHANGED <<h, step>>
           ELSE step' = "done" /\ UNCHANGED <<h, K>>
Next == Mask
Spec == Init /\ [][Next]_<<h, K, step>>
Done == step = "done"
Kept(i) == Flags(h, K, i)
Sc == Scales(h, K)
(* an element no model changed, or that survives in none, keeps the base value *)
Untouched == Done => \A i \in Idx(h) :
   (\A m \in Ms(h) : i \notin K[m] \/ Delta(h, m, i) = 0) => \A s \in {1, 0 - 1} : Result(h, i, Kept(i), Sc, s) = I(h.b[i])
(* exactly the configured share survives the deterministic sparsifiers *)
Share == Done => \A m \in Ms(h) : Sparsifier(h.method) \in {"magnitude", "outliers"} =>
   Card(K[m]) = IF Le(One, Density(h, m)) THEN N(h) ELSE Target(h, m)
(* no removed element of ties outranks a kept one *)
Ranked == Done /\ h.method = "ties" => \A m \in Ms(h) : \A i \in K[m], j \in Idx(h) \ K[m] : Mag(h, m, i) >= Mag(h, m, j)
(* consensus: the merged change never points against the elected sign *)
Elected == Done /\ Consensus(h.method) /\ (~Normalize(h) \/ h.w[1][1] > 0) => \A i \in Idx(h) : \A s \in Signs(h, i, Kept(i), Sc) :
   Sgn(Mixed(h, i, Kept(i), Sc, s)) \in {0, s}
(* rescaling preserves the mass of each task vector *)
Mass == Done => \A m \in Ms(h) :
   Sparsifier(h.method) # "none" /\ Rescale(h) /\ SumMag(h, m, K[m]) > 0 =>
      Mul(Scale(h, m, K[m]), I(SumMag(h, m, K[m]))) = I(SumMag(h, m, Idx(h)))
(* normalized merging of equal models gives that model where it survives *)
Same == Done /\ Normalize(h) /\ ~Rescale(h) /\ h.x[1] = h.x[2] /\ h.w[1][1] > 0 => \A i \in Idx(h) :
   (\A m \in Ms(h) : i \in K[m]) => \E s \in {1, 0 - 1} : Result(h, i, Kept(i), Sc, s) = I(h.x[1][i])
(* the verdict accepts every outcome the model allows and nothing shifted *)
Out(d) == [i \in Idx(h) |-> LET r == Result(h, i, Kept(i), Sc, CHOOSE s \in Signs(h, i, Kept(i), Sc) : TRUE) IN d + (r[1] * S) \div r[2]]
Accepts == Done => /\ GtaClauses([h EXCEPT !.outcome = "ok", !.out = Out(0)]) = {}
                   /\ (~IsRandom(h) => GtaClauses([h EXCEPT !.outcome = "ok", !.out = Out(250000)]) = {"wrong-value"})
Emit == (EMIT /\ step = "mask" /\ K = <<>>) => PrintT(ToJson([c |-> h]))
=============================================================================
