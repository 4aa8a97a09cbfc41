------------------------------- MODULE Vocab -------------------------------
(* Output vocabulary and token embeddings of a merge                         *)
(* (mergekit/tokenizer, mergekit/plan.py, mergekit/merge.py).                *)
(*                                                                           *)
(* c: [voc  : per model its tokens in id order (id = position - 1),          *)
(*     size : per model its vocab_size (embedding rows),                     *)
(*     base : base model or 0,  src: "union" | "base" | "model", srcm: model *)
(*     toks : sequence of [t, kind, m, u, i, force]: configured tokens;      *)
(*            kind none | zero | model (m) | mtok (m, token u) | mid (m, i)  *)
(*     pad  : 0 or the multiple to pad to,  w: weight per model]             *)
(* An embedding is a vector of rational coefficients over (model, row)       *)
(* pairs; row r of model m is the unit vector (m, r).                        *)
EXTENDS Rat, FiniteSets
Models(c) == 1..Len(c.voc)
SeqSet(s) == {s[i] : i \in DOMAIN s}
IdIn(v, t) == (CHOOSE i \in DOMAIN v : v[i] = t) - 1
(* tokens whose id lies beyond the model's rows are not part of the model *)
Used(c, m) == SubSeq(c.voc[m], 1, IF c.size[m] < Len(c.voc[m]) THEN c.size[m] ELSE Len(c.voc[m]))
Has(c, m, t) == t \in SeqSet(Used(c, m))
EffBase(c) == IF c.base # 0 THEN c.base ELSE 1     \* the first model listed
CfgToks(c) == {c.toks[i].t : i \in DOMAIN c.toks}
Cfg(c, t) == c.toks[CHOOSE i \in DOMAIN c.toks : c.toks[i].t = t]

(* --- output vocabulary ----------------------------------------------------- *)
Seed(c) == CASE c.src = "model" -> c.voc[c.srcm]
             [] c.src = "base" -> Used(c, EffBase(c))
             [] c.src = "union" -> Used(c, EffBase(c))
Wanted(c) == SeqSet(Seed(c)) \cup CfgToks(c) \cup
             (IF c.src = "union" THEN UNION {SeqSet(Used(c, m)) : m \in Models(c)} ELSE {})
(* v: token -> id, as a set of <<token, id>> *)
VocabOK(c, v) ==
  /\ {x[1] : x \in v} = Wanted(c)
  /\ Cardinality(v) = Cardinality(Wanted(c))
  /\ {x[2] : x \in v} = 0..(Cardinality(Wanted(c)) - 1)
KeepsIds(c, v) == \A i \in DOMAIN Seed(c) : <<Seed(c)[i], i - 1>> \in v
Rows(c) == LET n == Cardinality(Wanted(c)) IN
           IF c.pad = 0 \/ n % c.pad = 0 THEN n ELSE n + c.pad - (n % c.pad)

(* --- embeddings ------------------------------------------------------------ *)
RowMax(c) == LET S0 == {c.size[m] : m \in Models(c)} IN CHOOSE x \in S0 : \A y \in S0 : y <= x
Unit(c, m, r) == [p \in Models(c) \X (0..(RowMax(c) - 1)) |-> IF p = <<m, r>> THEN One ELSE Zero]
Null(c) == [p \in Models(c) \X (0..(RowMax(c) - 1)) |-> Zero]
VAdd(a, b) == [p \in DOMAIN a |-> Add(a[p], b[p])]
VScale(a, q) == [p \in DOMAIN a |-> Mul(a[p], q)]
RECURSIVE VSum(_, _, _)
VSum(c, S0, F) == IF S0 = {} THEN Null(c)
                  ELSE LET x == CHOOSE y \in S0 : TRUE IN VAdd(F[x], VSum(c, S0 \ {x}, F))
OwnRow(c, m, t) == Unit(c, m, IdIn(c.voc[m], t))
Holders(c, t) == {m \in Models(c) : Has(c, m, t)}
(* the documented default for a token a model lacks *)
Default(c, t) ==
  LET H0 == Holders(c, t) IN
  IF c.base # 0 /\ c.base \in H0 THEN OwnRow(c, c.base, t)
  ELSE IF H0 = {} THEN Null(c)
  ELSE VScale(VSum(c, H0, [m \in H0 |-> OwnRow(c, m, t)]), Q(1, Cardinality(H0)))
SourceBad(c, e) ==
  CASE e.kind = "model" -> ~Has(c, e.m, e.t)
    [] e.kind = "mtok" -> e.u \notin SeqSet(c.voc[e.m]) \/ IdIn(c.voc[e.m], e.u) >= c.size[e.m]
    [] e.kind = "mid" -> e.i >= c.size[e.m]
    [] OTHER -> FALSE
Fallback(c, t) ==
  IF t \notin CfgToks(c) THEN Default(c, t)
  ELSE LET e == Cfg(c, t) IN
       CASE e.kind = "none" -> Default(c, t)
         [] e.kind = "zero" -> Null(c)
         [] e.kind = "model" -> OwnRow(c, e.m, t)
         [] e.kind = "mtok" -> OwnRow(c, e.m, e.u)
         [] e.kind = "mid" -> Unit(c, e.m, e.i)
Forced(c, t) == t \in CfgToks(c) /\ Cfg(c, t).force
EmbedOf(c, m, t) == IF Has(c, m, t) /\ ~Forced(c, t) THEN OwnRow(c, m, t) ELSE Fallback(c, t)
(* what a weighted sum of the models' matrices has in the token's row *)
OutRow(c, t) == VSum(c, Models(c), [m \in Models(c) |-> VScale(EmbedOf(c, m, t), I(c.w[m]))])
PadRow(c) == VScale(VSum(c, Wanted(c), [t \in Wanted(c) |-> OutRow(c, t)]), Q(1, Cardinality(Wanted(c))))
MustFail(c) == \E i \in DOMAIN c.toks : SourceBad(c, c.toks[i])

(* --- verdict ---------------------------------------------------------------- *)
(* h: c, outcome, vocab: seq of [t, i], vsize: written vocab_size,            *)
(*    mats: seq of matrices (embedding, head); a matrix is a seq of rows, a   *)
(*    row a seq of [m, r, x] with the nonzero coefficients scaled by S        *)
S == 10000
RowNear(c, exp, row) ==
  /\ \A p \in DOMAIN exp : LET hit == {i \in DOMAIN row : row[i].m = p[1] /\ row[i].r = p[2]} IN
        IF hit = {} THEN Near(0, exp[p], S, 4)
        ELSE LET i == CHOOSE j \in hit : TRUE IN Near(row[i].x, exp[p], S, 4)
  /\ \A i \in DOMAIN row : <<row[i].m, row[i].r>> \in DOMAIN exp
VocabClauses(h) ==
  LET c == h.c
      v == {<<h.vocab[i].t, h.vocab[i].i>> : i \in DOMAIN h.vocab}
  IN IF MustFail(c) THEN (IF h.outcome = "error" THEN {} ELSE {"bad-token-source-accepted"})
     ELSE IF h.outcome # "ok" THEN {"valid-configuration-refused"}
     ELSE IF ~VocabOK(c, v) THEN {"wrong-vocabulary"}
     ELSE {x \in {"ids-not-kept", "wrong-vocab-size", "wrong-row-count", "wrong-embedding", "wrong-padding"} :
             CASE x = "ids-not-kept" -> ~KeepsIds(c, v)
               [] x = "wrong-vocab-size" -> h.vsize # Rows(c)
               [] x = "wrong-row-count" -> \E k \in DOMAIN h.mats : Len(h.mats[k]) # Rows(c)
               [] x = "wrong-embedding" ->
                    \E k \in DOMAIN h.mats : \E p \in v : p[2] < Len(h.mats[k]) /\ ~RowNear(c, OutRow(c, p[1]), h.mats[k][p[2] + 1])
               [] x = "wrong-padding" ->
                    \E k \in DOMAIN h.mats : \E r \in (Cardinality(Wanted(c)) + 1)..Len(h.mats[k]) :
                       ~RowNear(c, PadRow(c), h.mats[k][r])}
=============================================================================
