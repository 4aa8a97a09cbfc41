-------------------------------- MODULE Plan --------------------------------
(* From a merge configuration to the list of output tensors and what each   *)
(* is made of (mergekit/plan.py, mergekit/config.py, mergekit/merge.py).     *)
(*                                                                           *)
(* A configuration c:                                                        *)
(*  method  "linear" | "task" | "pass"                                       *)
(*  form    "models" | "slices" | "mod-models" | "mod-slices"                *)
(*  depth   layers of each model 1..Len(depth)                               *)
(*  base    base model, 0 if none                                            *)
(*  slices  sequence of [base, w, lam, src: seq of [m, lo, hi, w]]           *)
(*          (one slice covering whole models in the models forms)            *)
(*  modw, modlam, gw, glam   module and global level settings                *)
(* w is the per-source factor (`weight`, or `scale` for passthrough), lam    *)
(* the global factor `lambda`.  A setting is a record with kind              *)
(*  none | num (g = <<value>>) | grad (g: a gradient over the layers) |      *)
(*  cond (v: a sequence of [f, s], f the filter as a token sequence, s a     *)
(*  num or grad).                                                            *)
EXTENDS Rat, FiniteSets

LayerKinds == <<"input_layernorm", "q_proj", "k_proj", "v_proj", "o_proj",
                "post_attention_layernorm", "up_proj", "gate_proj", "down_proj">>
KindTokens(k) ==
  CASE k = "input_layernorm" -> <<"input", "_", "layer", "norm">>
    [] k = "post_attention_layernorm" -> <<"post", "_", "attention", "_", "layer", "norm">>
    [] k \in {"q_proj", "k_proj", "v_proj", "o_proj"} ->
         <<"self", "_", "attn", ".", CASE k = "q_proj" -> "q" [] k = "k_proj" -> "k" [] k = "v_proj" -> "v" [] k = "o_proj" -> "o", "_", "proj">>
    [] k = "up_proj" -> <<"mlp", ".", "up", "_", "proj">>
    [] k = "gate_proj" -> <<"mlp", ".", "gate", "_", "proj">>
    [] k = "down_proj" -> <<"mlp", ".", "down", "_", "proj">>
    [] k = "embed" -> <<"embed", "_", "tokens">>
    [] k = "norm" -> <<"norm">>
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE <<Digit[(n \div 10) + 1], Digit[(n % 10) + 1]>>
Dot == <<".">>
(* a tensor is [k |-> kind, l |-> layer], layer -1 outside the layer stack *)
Name(x) == IF x.k = "head" THEN <<"lm", "_", "head", ".", "weight">>
           ELSE IF x.l < 0 THEN <<"model">> \o Dot \o KindTokens(x.k) \o <<".", "weight">>
           ELSE <<"model", ".", "layer", "s", ".">> \o Digits(x.l) \o Dot \o KindTokens(x.k) \o <<".", "weight">>
Contains(s, f) == \E i \in 0..(Len(s) - Len(f)) : \A j \in 1..Len(f) : s[i + j] = f[j]

Pre == <<[k |-> "embed", l |-> 0 - 1]>>
Post == <<[k |-> "norm", l |-> 0 - 1], [k |-> "head", l |-> 0 - 1]>>

(* --- parameter settings --------------------------------------------------- *)
None == <<>>
Grad(v, t) == LET sc == Mul(t, I(Len(v) - 1))
                  i0 == Floor(sc)
                  i1 == IF i0 + 1 > Len(v) - 1 THEN Len(v) - 1 ELSE i0 + 1
                  fr == Sub(sc, I(i0))
              IN Add(Mul(Sub(One, fr), I(v[i0 + 1])), Mul(fr, I(v[i1 + 1])))
Plain(s, t) == IF s.kind = "num" THEN I(s.g[1]) ELSE Grad(s.g, t)
Matches(f, name) == f = <<>> \/ f = <<"*">> \/ Contains(name, f)
(* value of one setting for a tensor, None when it does not apply *)
Eval(s, name, t) ==
  CASE s.kind = "none" -> None
    [] s.kind \in {"num", "grad"} -> Plain(s, t)
    [] s.kind = "cond" ->
         LET hit == {i \in DOMAIN s.v : Matches(s.v[i].f, name)}
         IN IF hit = {} THEN None
            ELSE LET i == CHOOSE j \in hit : \A k \in hit : j <= k IN Plain(s.v[i].s, t)
(* innermost level that yields a value wins *)
RECURSIVE FirstOf(_)
FirstOf(vs) == IF vs = <<>> THEN None
               ELSE IF vs[1] # None THEN vs[1] ELSE FirstOf(Tail(vs))
SrcIx(sl, m) == CHOOSE i \in DOMAIN sl.src : sl.src[i].m = m
WeightOf(c, sl, m, name, t) ==
  FirstOf(<<Eval(sl.src[SrcIx(sl, m)].w, name, t), Eval(sl.w, name, t),
            Eval(c.modw, name, t), Eval(c.gw, name, t)>>)
LambdaOf(c, sl, name, t) ==
  LET v == FirstOf(<<Eval(sl.lam, name, t), Eval(c.modlam, name, t), Eval(c.glam, name, t)>>)
  IN IF v = None THEN One ELSE v

(* --- normal form of the configuration ------------------------------------- *)
NoSet == [kind |-> "none", g |-> <<>>, v |-> <<>>]
(* whole-model forms: the base joins the inputs when it is not among them *)
Slices(c) ==
  IF c.form \in {"models", "mod-models"} /\ c.base # 0 /\ (\A i \in DOMAIN c.slices[1].src : c.slices[1].src[i].m # c.base)
  THEN <<[c.slices[1] EXCEPT !.src = Append(@, [m |-> c.base, lo |-> 0, hi |-> c.depth[c.base], w |-> NoSet])]>>
  ELSE c.slices
BaseOf(c, sl) == IF sl.base # 0 THEN sl.base ELSE c.base
Len1(sl) == sl.src[1].hi - sl.src[1].lo

(* --- planning as a state machine ------------------------------------------ *)
(* s: [ph: "pre"|"layer"|"post"|"done"|"error", si, li (layer within slice), *)
(*     out: emitted tensors, next: next output layer]                        *)
(* an emitted tensor: [o, in: seq of [m, x], sl, t]                          *)
PInit == [ph |-> "pre", si |-> 1, li |-> 0, next |-> 0, out |-> <<>>]
Emission(sl, o, off, t) ==
  [o |-> o, sl |-> sl, t |-> t,
   in |-> [i \in DOMAIN sl.src |->
             [m |-> sl.src[i].m, x |-> IF o.l < 0 THEN o ELSE [k |-> o.k, l |-> sl.src[i].lo + off]]]]
EvenSlice(sl) == \A i \in DOMAIN sl.src : sl.src[i].hi - sl.src[i].lo = Len1(sl)
TOf(sl, li) == IF Len1(sl) > 1 THEN Q(li, Len1(sl) - 1) ELSE One
PStep(c, s) ==
  LET S == Slices(c)
      sl == S[s.si]
  IN CASE s.ph = "pre" ->
            [s EXCEPT !.ph = "layer", !.out = @ \o [i \in DOMAIN Pre |-> Emission(S[1], Pre[i], 0, Zero)]]
       [] s.ph = "layer" /\ s.li = 0 /\ ~EvenSlice(sl) -> [s EXCEPT !.ph = "error"]
       [] s.ph = "layer" /\ s.li >= Len1(sl) ->
            IF s.si = Len(S) THEN [s EXCEPT !.ph = "post"] ELSE [s EXCEPT !.si = @ + 1, !.li = 0]
       [] s.ph = "layer" ->
            [s EXCEPT !.li = @ + 1, !.next = @ + 1,
                      !.out = @ \o [i \in DOMAIN LayerKinds |->
                                     Emission(sl, [k |-> LayerKinds[i], l |-> s.next], s.li, TOf(sl, s.li))]]
       [] s.ph = "post" ->
            [s EXCEPT !.ph = "done", !.out = @ \o [i \in DOMAIN Post |-> Emission(S[Len(S)], Post[i], 0, Zero)]]
       [] OTHER -> s
RECURSIVE PRun(_, _)
PRun(c, s) == IF s.ph \in {"done", "error"} THEN s ELSE PRun(c, PStep(c, s))

(* --- what a plan entry amounts to: coefficient of each input -------------- *)
Param(c, e, i) ==
  WeightOf(c, e.sl, e.in[i].m, Name(e.in[i].x), e.t)
EntryBad(c, e) ==
  LET b == BaseOf(c, e.sl)
      needs == {i \in DOMAIN e.in : Param(c, e, i) = None}
  IN \/ c.method = "linear" /\ needs # {}
     \/ c.method = "task" /\ (\/ \A i \in DOMAIN e.in : e.in[i].m # b
                              \/ \E i \in needs : e.in[i].m # b)
     \/ c.method = "pass" /\ Len(e.in) # 1
     \/ \E i \in DOMAIN e.in : e.in[i].x.l >= c.depth[e.in[i].m]
Coef(c, e) ==     \* per position in e.in
  LET b == BaseOf(c, e.sl)
      lam == LambdaOf(c, e.sl, Name(e.o), e.t)
      w(i) == Param(c, e, i)
      nb == {i \in DOMAIN e.in : e.in[i].m # b}
      tot == SumQ([i \in DOMAIN e.in |-> IF i \in nb THEN Mul(lam, w(i)) ELSE Zero])
  IN [i \in DOMAIN e.in |->
        CASE c.method = "linear" -> w(i)
          [] c.method = "pass" -> IF w(i) = None THEN One ELSE w(i)
          [] c.method = "task" -> IF i \in nb THEN Mul(lam, w(i)) ELSE Sub(One, tot)]

(* --- verdict on a merge that was really run -------------------------------- *)
(* h.c, h.outcome ("ok"/"error"), h.layers (num_hidden_layers written),      *)
(* h.out: seq of [o, co: seq over models of [w (scaled), k, l]], h.junk      *)
S == 1000
Expected(c) == PRun(c, PInit)
MustFail(c) == LET p == Expected(c) IN p.ph = "error" \/ \E i \in DOMAIN p.out : EntryBad(c, p.out[i])
PlanClauses(h) ==
  LET c == h.c
      p == Expected(c)
      fail == MustFail(c)
  IN IF fail THEN (IF h.outcome = "error" THEN {} ELSE {"invalid-configuration-accepted"})
     ELSE IF h.outcome # "ok" THEN {"valid-configuration-refused"}
     ELSE LET names == {p.out[i].o : i \in DOMAIN p.out}
              got == {h.out[i].o : i \in DOMAIN h.out}
              e(o) == p.out[CHOOSE i \in DOMAIN p.out : p.out[i].o = o]
              obs(o) == h.out[CHOOSE i \in DOMAIN h.out : h.out[i].o = o].co
              ok(o) == LET en == e(o)
                           cf == Coef(c, en)
                           ob == obs(o)
                       IN \A m \in DOMAIN c.depth :
                            LET ix == {i \in DOMAIN en.in : en.in[i].m = m} IN
                            IF ix = {} THEN ob[m].w = 0
                            ELSE LET i == CHOOSE j \in ix : TRUE IN Near(ob[m].w, cf[i], S, 3)
              src(o) == LET en == e(o)
                            cf == Coef(c, en)
                            ob == obs(o)
                        IN \A i \in DOMAIN en.in :
                             cf[i] = Zero \/ (ob[en.in[i].m].k = en.in[i].x.k /\ ob[en.in[i].m].l = en.in[i].x.l)
          IN {x \in {"wrong-tensor-set", "wrong-coefficient", "wrong-source-tensor", "wrong-layer-count", "unexplained-values"} :
                CASE x = "wrong-tensor-set" -> names # got
                  [] x = "wrong-layer-count" -> h.layers # p.next
                  [] x = "unexplained-values" -> h.junk
                  [] x = "wrong-coefficient" -> \E o \in names \cap got : ~ok(o)
                  [] x = "wrong-source-tensor" -> \E o \in names \cap got : ~src(o)}
=============================================================================
