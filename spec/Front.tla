------------------------------- MODULE Front -------------------------------
(* What the other commands mean (mergekit/scripts/legacy.py, bakllama.py,              *)
(* layershuffle.py, mergekit/options.py): a command line is read token by token into   *)
(* the arguments of the command, and those stand for one merge.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoV == -99
One == 4 \* 1.0: values are quarters
Methods == <<"ties", "linear", "task_arithmetic", "slerp", "breadcrumbs", "dare_ties", "dare_linear", "della", "multislerp", "karcher">>
(* --- mergekit-legacy ------------------------------------------------------------------ *)
LInit == [merge |-> <<>>, ws |-> <<>>, ds |-> <<>>, method |-> "ties", base |-> 0, norm |-> TRUE, int8 |-> FALSE, bf16 |-> FALSE, naive |-> FALSE]
(* options every command has *)
OInit == [card |-> TRUE, tok |-> TRUE, safe |-> TRUE, shard |-> 0, seed |-> NoV]
LRead(a, t) ==
  CASE t.o = "merge" -> [a EXCEPT !.merge = Append(@, t.v)]
    [] t.o = "weight" -> [a EXCEPT !.ws = Append(@, t.v)]
    [] t.o = "density" -> [a EXCEPT !.ds = Append(@, t.v)]
    [] t.o = "method" -> [a EXCEPT !.method = Methods[t.v]]
    [] t.o = "base" -> [a EXCEPT !.base = t.v]
    [] t.o = "normalize" -> [a EXCEPT !.norm = t.v = 1]
    [] t.o = "int8" -> [a EXCEPT !.int8 = t.v = 1]
    [] t.o = "bf16" -> [a EXCEPT !.bf16 = t.v = 1]
    [] t.o = "naive" -> [a EXCEPT !.naive = t.v = 1]
    [] OTHER -> a
ORead(a, t) ==
  CASE t.o = "card" -> [a EXCEPT !.card = t.v = 1]
    [] t.o = "tok" -> [a EXCEPT !.tok = t.v = 1]
    [] t.o = "safe" -> [a EXCEPT !.safe = t.v = 1]
    [] t.o = "shard" -> [a EXCEPT !.shard = t.v]
    [] t.o = "seed" -> [a EXCEPT !.seed = t.v]
    [] OTHER -> a
RECURSIVE LAll(_, _), OAll(_, _)
LAll(a, ts) == IF ts = <<>> THEN a ELSE LAll(LRead(a, Head(ts)), Tail(ts))
OAll(a, ts) == IF ts = <<>> THEN a ELSE OAll(ORead(a, Head(ts)), Tail(ts))
LModels(a) == a.merge \o (IF a.base # 0 /\ ~\E i \in DOMAIN a.merge : a.merge[i] = a.base THEN <<a.base>> ELSE <<>>)
(* one value is for all models; no weight at all means 1 *)
Spread(vs, i) == IF Len(vs) = 1 THEN vs[1] ELSE IF i \in DOMAIN vs THEN vs[i] ELSE NoV
LMeaning(a) ==
  LET ms == LModels(a)
      slerp == a.method = "slerp"
      ws == IF a.ws = <<>> THEN <<One>> ELSE a.ws IN
  [refused |-> (slerp /\ Len(a.ws) # 1) \/ (~slerp /\ Len(ws) > 1 /\ Len(ws) > Len(ms)) \/ (Len(a.ds) > 1 /\ Len(a.ds) > Len(ms)),
   method |-> a.method, base |-> a.base, norm |-> a.norm, int8 |-> a.int8, count |-> a.naive, bf16 |-> a.bf16,
   t |-> IF slerp /\ Len(a.ws) = 1 THEN a.ws[1] ELSE NoV,
   models |-> [i \in DOMAIN ms |-> [m |-> ms[i], w |-> IF slerp THEN NoV ELSE Spread(ws, i), d |-> Spread(a.ds, i)]]]
(* --- bakllama: slices of layers, with the last matrix of each layer scaled --------------- *)
RECURSIVE Stack(_)
Stack(ss) == IF ss = <<>> THEN <<>>
  ELSE [i \in 1..(Head(ss).hi - Head(ss).lo) |-> [m |-> Head(ss).m, l |-> Head(ss).lo + i - 1, s |-> IF Head(ss).s = NoV THEN One ELSE Head(ss).s]] \o Stack(Tail(ss))
StackEmbed(f) == IF f.emb # 0 THEN f.emb ELSE f.slices[1].m
StackHead(f) == IF f.head # 0 THEN f.head ELSE f.slices[Len(f.slices)].m
(* --- mergekit-layershuffle: what may come out -------------------------------------------- *)
Count(ls, m) == Cardinality({i \in DOMAIN ls : ls[i].m = m})
Shuffled(q, ls) ==
  /\ \A i \in DOMAIN ls : ls[i].s = One /\ ls[i].m \in DOMAIN q.ws /\ ls[i].l \in 0..(q.n - 1)
  /\ IF q.full THEN \A m \in DOMAIN q.ws : Count(ls, m) = (q.n * q.ws[m]) \div One
     ELSE Len(ls) = q.n /\ \A i \in DOMAIN ls : ls[i].l = i - 1 /\ q.ws[ls[i].m] > 0
(* --- what the shared options do ------------------------------------------------------------ *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
OptionClauses(o, f) ==
  (IF f.card # o.card THEN {"model card"} ELSE {}) \cup
  (IF f.tok # o.tok THEN {"tokenizer"} ELSE {}) \cup
  (IF f.safe # o.safe THEN {"serialization format"} ELSE {}) \cup
  (IF o.shard > 0 /\ \E i \in DOMAIN f.size : f.size[i] > o.shard /\ f.count[i] > 1 THEN {"shard size"} ELSE {}) \cup
  (IF Len(f.size) > 1 /\ (o.shard = 0 \/ Sum(f.size) <= o.shard) THEN {"needless shards"} ELSE {})
(* --- verdict ------------------------------------------------------------------------------- *)
FrontClauses(h) ==
  LET o == OAll(OInit, h.toks)
      opts == IF h.ok THEN OptionClauses(o, h.files) ELSE {} IN
  CASE h.k = "legacy" ->
       LET m == LMeaning(LAll(LInit, h.toks)) IN
       (IF h.used # m THEN {"machinery: meaning"} ELSE {}) \cup
       (IF m.refused THEN (IF h.ok THEN {"arguments that do not fit accepted"} ELSE {})
        ELSE IF h.got # h.want THEN {"another merge than the arguments say"} ELSE {}) \cup
       (IF h.ok /\ h.again \notin {0, h.got} THEN {"printed or recorded configuration gives another result"} ELSE {}) \cup opts
    [] h.k = "stack" ->
       (IF ~h.ok THEN {"refused"}
        ELSE (IF h.layers # Stack(h.file.slices) THEN {"layers"} ELSE {}) \cup
             (IF h.embed # StackEmbed(h.file) THEN {"embeddings"} ELSE {}) \cup
             (IF h.head # StackHead(h.file) THEN {"output head"} ELSE {}) \cup
             (IF h.norm \notin {StackHead(h.file), h.file.slices[Len(h.file.slices)].m} THEN {"final norm"} ELSE {}))
    [] h.k = "shuffle" ->
       (IF ~h.ok THEN {"refused"}
        ELSE (IF Shuffled(h.q, h.layers) THEN {} ELSE {"not a shuffle of the layers"}) \cup
             (IF h.layers # <<>> /\ h.embed # h.layers[1].m THEN {"embeddings"} ELSE {}) \cup
             (IF h.layers # <<>> /\ (h.head # h.layers[Len(h.layers)].m \/ h.norm # h.layers[Len(h.layers)].m) THEN {"output head"} ELSE {}) \cup
             (IF h.again \notin {0, h.got} THEN {"another result with the same seed or the written configuration"} ELSE {}) \cup
             (IF h.dry THEN {"dry run wrote a model"} ELSE {}) \cup opts)
    [] h.k = "draws" -> \* layers drawn by many runs
       IF \E m \in DOMAIN h.q.ws, l \in 0..(h.q.n - 1) : h.q.ws[m] > 0 /\ ~\E i \in DOMAIN h.layers : h.layers[i].m = m /\ h.layers[i].l = l
       THEN {"some layers are never drawn"} ELSE {}
    [] OTHER -> {"machinery"}
=============================================================================
