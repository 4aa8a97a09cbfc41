-------------------------------- MODULE Moe --------------------------------
(* Mixture-of-experts assembly (mergekit/moe, mergekit-moe).                   *)
(*                                                                             *)
(* c: types: model type per model ("llama", "mistral", "qwen2", "qwen3", ...); *)
(*       model 1 is the base;                                                  *)
(*    experts: seq of [m: model, pos, neg: sequences of prompt numbers,        *)
(*       scale: <<n, d>> or <<>> (residual_scale)];  shared: the same;         *)
(*    k: experts_per_token; gate: mode; arch: requested architecture or "";    *)
(*    same: the flag that allows identical experts; layers                     *)
(* A slot is a place of the output model: [kind, l, e, part].                  *)
EXTENDS Rat, FiniteSets, TLC
Ix(s) == 1..Len(s)
Range(s) == {s[i] : i \in DOMAIN s}
Archs == <<"mixtral", "deepseek", "qwen", "qwen3">>
Used(c) == {c.types[1]} \cup {c.types[c.experts[i].m] : i \in Ix(c.experts)} \cup {c.types[c.shared[i].m] : i \in Ix(c.shared)}
OneType(c, S0) == Cardinality(Used(c)) = 1 /\ Used(c) \subseteq S0
Gated(c) == \E i \in Ix(c.shared) : c.shared[i].pos # <<>> \/ c.shared[i].neg # <<>>
Supports(a, c) ==
  CASE a = "mixtral" -> c.shared = <<>> /\ OneType(c, {"llama", "mistral"})
    [] a = "deepseek" -> Len(c.shared) <= 1 /\ ~Gated(c) /\ OneType(c, {"llama", "mistral"})
    [] a = "qwen" -> Len(c.shared) = 1 /\ (c.gate = "random" \/ c.shared[1].pos # <<>>) /\ OneType(c, {"llama", "mistral", "qwen2"})
    [] a = "qwen3" -> c.shared = <<>> /\ OneType(c, {"qwen3"})
(* a request names an architecture or the beginning of its name *)
Asked(a, c) == c.arch = "" \/ a = c.arch \/ (c.arch = "qwen" /\ a = "qwen3")
Able(c) == {i \in Ix(Archs) : Asked(Archs[i], c) /\ Supports(Archs[i], c)}
Chosen(c) == Archs[CHOOSE i \in Able(c) : \A j \in Able(c) : i <= j]
Prompt(e) == <<e.pos, e.neg>>
AllSame(s) == \A i \in DOMAIN s : s[i] = s[1]
Useless(c) == c.gate # "random" /\
  \/ \E i \in Ix(c.experts) : c.experts[i].pos = <<>>
  \/ AllSame([i \in Ix(c.experts) |-> Prompt(c.experts[i])])
  \/ ~c.same /\ AllSame([i \in Ix(c.experts) |-> c.experts[i].m])
Refused(c) == c.k < 1 \/ Len(c.experts) < c.k \/ Useless(c) \/ Able(c) = {}

(* --- the output model ------------------------------------------------------- *)
Slot(kd, l, e, p) == [kind |-> kd, l |-> l, e |-> e, part |-> p]
Layers(c) == 0..(c.layers - 1)
LayerParts(c) == {"in", "post", "q", "k", "v", "o"}
                 \cup (IF Chosen(c) = "qwen" THEN {"qb", "kb", "vb"} ELSE {})
                 \cup (IF Chosen(c) = "qwen3" THEN {"qn", "kn"} ELSE {})
Mlp == {"gate", "up", "down"}
Slots(c) ==
  {Slot("top", 0, 0, p) : p \in {"embed", "norm", "head"}}
  \cup {Slot("layer", l, 0, p) : l \in Layers(c), p \in LayerParts(c)}
  \cup {Slot("exp", l, e, p) : l \in Layers(c), e \in 0..(Len(c.experts) - 1), p \in Mlp}
  \cup {Slot("shared", l, e, p) : l \in Layers(c), e \in 0..(Len(c.shared) - 1), p \in Mlp}
GateSlots(c) ==
  {Slot("gate", l, e, "") : l \in Layers(c), e \in 0..(Len(c.experts) - 1)}
  \cup (IF Chosen(c) = "qwen" THEN {Slot("sgate", l, 0, "") : l \in Layers(c)} ELSE {})
(* which model fills a slot, and by how much it is scaled *)
Donor(c, s) == CASE s.kind \in {"top", "layer"} -> 1
                 [] s.kind = "exp" -> c.experts[s.e + 1].m
                 [] s.kind = "shared" -> c.shared[s.e + 1].m
Scale(c, s) == LET e == IF s.kind = "exp" THEN c.experts[s.e + 1].scale ELSE IF s.kind = "shared" THEN c.shared[s.e + 1].scale ELSE <<>>
               IN IF s.part = "down" /\ e # <<>> THEN Q(e[1], e[2]) ELSE One
(* biases that the output needs and the base lacks are zero *)
Blank(c, s) == s.part \in {"qb", "kb", "vb"} /\ c.types[1] # "qwen2"
Want(c, s, num) == IF Blank(c, s) THEN Zero ELSE Mul(Scale(c, s), I(num[Donor(c, s)]))

(* --- router ------------------------------------------------------------------ *)
VAdd(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
VMul(k, a) == [i \in DOMAIN a |-> k * a[i]]
VSum(vs) == LET RECURSIVE go(_) go(n) == IF n = 1 THEN vs[1] ELSE VAdd(vs[n], go(n - 1)) IN go(Len(vs))
Sq(v) == LET RECURSIVE go(_) go(n) == IF n = 0 THEN 0 ELSE v[n] * v[n] + go(n - 1) IN go(Len(v))
RECURSIVE Bis(_, _, _)
Bis(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bis(n, m, hi) ELSE Bis(n, lo, m)
ISqrt(n) == Bis(n, 0, 46340)
Unit(v) == LET L == ISqrt(Sq(v)) IN IF L = 0 THEN v ELSE [i \in DOMAIN v |-> (v[i] * 1000) \div L]
(* hs[l+1][p]: what prompt p looks like in layer l (whole numbers) *)
Seen(hs, l, ps) == VSum([i \in DOMAIN ps |-> hs[l + 1][ps[i]]])
RouterRow(c, hs, l, e) ==
  IF c.gate = "cheap_embed"
  THEN LET a == Unit(Seen(hs, l, e.pos)) IN
       IF e.neg = <<>> THEN a ELSE Unit(VAdd(a, VMul(0 - 1, Unit(Seen(hs, l, e.neg)))))
  ELSE LET a == Seen(hs, l, e.pos) IN
       IF e.neg = <<>> THEN Unit(a)
       ELSE Unit(VAdd(VMul(Len(e.neg), a), VMul(0 - Len(e.pos), Seen(hs, l, e.neg))))
RouterOf(c, s) == IF s.kind = "gate" THEN c.experts[s.e + 1] ELSE c.shared[1]
Clear(c, hs, s) == \* far from cancelling out
  LET e == RouterOf(c, s) IN
  IF e.neg = <<>> THEN Sq(Seen(hs, s.l, e.pos)) > 2500
  ELSE Sq(VAdd(Unit(Seen(hs, s.l, e.pos)), VMul(0 - 1, Unit(Seen(hs, s.l, e.neg))))) > 90000
GateTol(c) == IF c.gate = "cheap_embed" THEN 12 ELSE 70

(* --- verdict ------------------------------------------------------------------ *)
(* h: c, outcome, arch: architecture written, full: weights were observed,       *)
(*    ws: seq of [kind, l, e, part, num (per model), val x1000, ok: uniform and  *)
(*    of the output format], gates: seq of [kind, l, e, part, vec x1000], hs,    *)
(*    k, n: experts per token and number of experts in the written config,       *)
(*    func: "" | "same" | "different" (all experts equal the base)               *)
Key(w) == Slot(w.kind, w.l, w.e, w.part)
GateOK(c, hs, g) ==
  IF c.gate = "random" THEN Sq(g.vec) > 0
  ELSE Clear(c, hs, Key(g)) =>
       LET w == RouterRow(c, hs, g.l, RouterOf(c, Key(g))) IN
       \A i \in DOMAIN w : RAbsI(w[i] - g.vec[i]) <= GateTol(c)
MoeClauses(h) ==
  LET c == h.c IN
  IF Refused(c) THEN (IF h.outcome = "ok" THEN {"impossible-merge-accepted"} ELSE {})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE (IF h.arch = Chosen(c) THEN {} ELSE {"wrong-architecture"})
       \cup (IF h.k = c.k /\ h.n = Len(c.experts) THEN {} ELSE {"config-disagrees"})
       \cup (IF ~h.full \/ {Key(h.ws[i]) : i \in DOMAIN h.ws} = Slots(c) THEN {} ELSE {"missing-or-surplus-weights"})
       \cup (IF \A i \in DOMAIN h.ws : Key(h.ws[i]) \in Slots(c) => h.ws[i].ok /\ Near(h.ws[i].val, Want(c, Key(h.ws[i]), h.ws[i].num), 1000, 40) THEN {} ELSE {"wrong-weights"})
       \cup (IF {Key(h.gates[i]) : i \in DOMAIN h.gates} = GateSlots(c) THEN {} ELSE {"router-incomplete"})
       \cup (IF \A i \in DOMAIN h.gates : Key(h.gates[i]) \in GateSlots(c) => GateOK(c, h.hs, h.gates[i]) THEN {} ELSE {"wrong-router"})
       \cup (IF h.func = "different" THEN {"identical-experts-change-the-model"} ELSE {})
=============================================================================
