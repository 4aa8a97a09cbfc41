--------------------------------- MODULE Raw ---------------------------------
(* Merges of arbitrary PyTorch checkpoints (mergekit-pytorch).                 *)
(*                                                                             *)
(* Tensors are numbered; the filters that match a tensor's name are fixed:     *)
(* 1 "attn", 2 "mlp", 3 "bias".                                                *)
(* c: method: "linear" | "task_arithmetic" | "passthrough";                    *)
(*    models: seq of [id, has: seq of tensor numbers, w: setting];             *)
(*    base: 0 or id; bhas: tensors of a base that is not one of the models;    *)
(*    topw: setting; norm: "" | "yes" | "no"; mode: "" | "union" |             *)
(*    "intersection"; dtype: "" or a format; stored: the inputs' format        *)
(* setting: seq of [f: filter or 0, v: quarters]; <<>> when not given          *)
(* value of tensor n in model m: Val(m, n), a small whole number               *)
EXTENDS Rat, FiniteSets, TLC
Matches(n) == CASE n = 1 -> {1} [] n = 2 -> {2} [] n = 3 -> {1, 3} [] n = 4 -> {2, 3} [] OTHER -> {}
Val(m, n) == ((m * m + 3 * n * m + n) % 17) - 5
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Eval(_, _)
Eval(s, n) == IF s = <<>> THEN <<>>
              ELSE IF s[1].f = 0 \/ s[1].f \in Matches(n) THEN <<Q(s[1].v, 4)>>
              ELSE Eval(Tail(s), n)
First(a, b) == IF a # <<>> THEN a ELSE b
Models(c) == [i \in DOMAIN c.models |-> c.models[i].id]
BaseListed(c) == \E i \in DOMAIN c.models : c.models[i].id = c.base
InputsHas(c) == {Range(c.models[i].has) : i \in DOMAIN c.models} \cup (IF c.base # 0 /\ ~BaseListed(c) THEN {Range(c.bhas)} ELSE {})
Union(c) == UNION InputsHas(c)
Inter(c) == {n \in Union(c) : \A S \in InputsHas(c) : n \in S}
Names(c) == IF c.mode = "intersection" THEN Inter(c) ELSE Union(c)
(* the models (other than the base) that have tensor n, in order *)
With(c, n) == SelectSeq([i \in DOMAIN c.models |-> i], LAMBDA i : n \in Range(c.models[i].has) /\ c.models[i].id # c.base)
BaseHas(c, n) == IF BaseListed(c) THEN \E i \in DOMAIN c.models : c.models[i].id = c.base /\ n \in Range(c.models[i].has)
                 ELSE c.base # 0 /\ n \in Range(c.bhas)
Weight(c, i, n) == First(Eval(c.models[i].w, n), Eval(c.topw, n))
(* passthrough knows no weight *)
Weighted(c) == c.method # "passthrough"
Unset(c) == Weighted(c) /\ \E n \in Names(c), i \in DOMAIN c.models : Weight(c, i, n) = <<>>
Mismatch(c) == c.mode = "" /\ Union(c) # Inter(c)
Alone(c) == c.method = "passthrough" /\ \E n \in Names(c) : Len(With(c, n)) + (IF BaseHas(c, n) THEN 1 ELSE 0) # 1
NoBase(c) == c.method = "task_arithmetic" /\ c.base = 0
Refused(c) == Mismatch(c) \/ Unset(c) \/ Alone(c) \/ (Names(c) # {} /\ NoBase(c))
(* outside the formulas: a task vector without its base, weights that cancel,  *)
(* a base in a method without one                                              *)
Norm(c) == IF c.norm = "" THEN c.method = "linear" ELSE c.norm = "yes"
All(c, n) == SelectSeq([i \in DOMAIN c.models |-> i], LAMBDA i : n \in Range(c.models[i].has))
Sum(c, n, s) == SumQ([k \in DOMAIN s |-> Weight(c, s[k], n)[1]])
Open(c) == ~Refused(c) /\ (
  \/ Names(c) = {}
  \/ c.method \in {"linear", "passthrough"} /\ c.base # 0
  \/ c.method = "task_arithmetic" /\ \E n \in Names(c) : ~BaseHas(c, n)
  \/ Weighted(c) /\ Norm(c) /\ \E n \in Names(c) :
       LET s == IF c.method = "linear" THEN All(c, n) ELSE With(c, n) IN s # <<>> /\ Sum(c, n, s)[1] = 0)
Value(c, n) ==
  CASE c.method = "passthrough" -> I(Val(c.models[All(c, n)[1]].id, n))
    [] c.method = "linear" ->
       LET s == All(c, n)
           t == SumQ([k \in DOMAIN s |-> Mul(Weight(c, s[k], n)[1], I(Val(c.models[s[k]].id, n)))])
       IN IF Norm(c) THEN Div(t, Sum(c, n, s)) ELSE t
    [] c.method = "task_arithmetic" ->
       LET s == With(c, n) b == I(Val(c.base, n))
           t == SumQ([k \in DOMAIN s |-> Mul(Weight(c, s[k], n)[1], Sub(I(Val(c.models[s[k]].id, n)), b))])
       IN IF s = <<>> THEN b ELSE Add(b, IF Norm(c) THEN Div(t, Sum(c, n, s)) ELSE t)
Format(c) == IF c.dtype = "" THEN c.stored ELSE c.dtype
Tol(f) == IF f = "float32" THEN 2 ELSE IF f = "float16" THEN 60 ELSE 500
(* --- verdict: h: c, outcome, problems, ts: seq of [n, v x1000, fmt, shape: as  *)
(* in the inputs and one value]                                                  *)
RawClauses(h) ==
  LET c == h.c IN
  IF Refused(c) THEN (IF h.outcome = "ok" THEN {"impossible-merge-accepted"} ELSE {})
  ELSE IF Open(c) THEN {}
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE (IF h.problems THEN {"unreadable-output"} ELSE {})
       \cup (IF {h.ts[i].n : i \in DOMAIN h.ts} = Names(c) THEN {} ELSE {"wrong-tensors"})
       \cup (IF \A i \in DOMAIN h.ts : h.ts[i].n \in Names(c) => h.ts[i].shape /\ Near(h.ts[i].v, Value(c, h.ts[i].n), 1000, Tol(Format(c))) THEN {} ELSE {"wrong-values"})
       \cup (IF \A i \in DOMAIN h.ts : h.ts[i].fmt = Format(c) THEN {} ELSE {"wrong-format"})
=============================================================================
