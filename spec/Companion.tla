------------------------------ MODULE Companion ------------------------------
(* What a merge writes besides tensors: configuration, tokenizer, chat         *)
(* template, companion files, model card (mergekit/merge.py).                  *)
(*                                                                             *)
(* c: n: number of models, order: their order in the configuration, base: 0 or *)
(*    a model (possibly not in order);                                         *)
(*    tok: per model: has a tokenizer; tpl: per model: chat template of its    *)
(*    tokenizer (0 none; templates that differ in surrounding blanks only have *)
(*    the same number); extra: per model: set-like seq of companion files      *)
(*    ("gen": generation_config.json); arch: "" or "audio" (an architecture    *)
(*    with companion files of its own, "pre": preprocessor_config.json)        *)
(*    source: 0 none, -1 "union", -2 "base", else a model                      *)
(*    chat: "" | "auto" | "name" (a built-in one) | "text" | "bad"             *)
(*    copy, card: BOOLEAN                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Donor(c) == IF c.base # 0 THEN c.base ELSE c.order[1]
Refs(c) == {c.order[i] : i \in DOMAIN c.order} \cup ({c.base} \ {0})
Src(c) == IF c.source > 0 THEN c.source ELSE Donor(c)
HasTok(c) == c.source # 0 \/ (c.copy /\ c.tok[Donor(c)])
(* the tokenizer itself is built or loaded *)
Fails(c) == c.source # 0 /\ c.chat = "bad"
Votes(c) == {m \in Refs(c) : c.tok[m] /\ c.tpl[m] # 0}
Count(c, t) == Cardinality({m \in Votes(c) : c.tpl[m] = t})
Winners(c) == {c.tpl[m] : m \in {x \in Votes(c) : \A y \in Votes(c) : Count(c, c.tpl[y]) <= Count(c, c.tpl[x])}}
Own(c) == IF c.source # 0 THEN c.tpl[Src(c)] ELSE c.tpl[Donor(c)]
BuiltIn == 0 - 1
Literal == 0 - 2
Templates(c) == CASE c.chat = "" -> {Own(c)}
                  [] c.chat = "name" -> {BuiltIn}
                  [] c.chat = "text" -> {Literal}
                  [] c.chat = "auto" -> IF Votes(c) = {} THEN {Own(c)} ELSE Winners(c)
                  [] c.chat = "bad" -> {}
(* files that must come from the donor as they are *)
Has(s, f) == \E i \in DOMAIN s : s[i] = f
Verbatim(c) == (IF c.source = 0 /\ c.copy /\ c.chat = "" /\ c.tok[Donor(c)] THEN {"tok"} \cup (IF Has(c.extra[Donor(c)], "gen") THEN {"gen"} ELSE {}) ELSE {})
               \cup (IF c.arch = "audio" /\ Has(c.extra[Donor(c)], "pre") THEN {"pre"} ELSE {})
(* files that must not be there *)
(* (for some architectures the library makes up a tokenizer where there is none) *)
Absent(c) == (IF ~HasTok(c) /\ (c.arch = "" \/ ~c.copy) THEN {"tok"} ELSE {})
             \cup (IF ~c.card THEN {"card"} ELSE {})
             \cup (IF ~(c.arch = "audio" /\ Has(c.extra[Donor(c)], "pre")) THEN {"pre"} ELSE {})
Present(c) == {"config"} \cup (IF HasTok(c) /\ c.chat # "bad" THEN {"tok"} ELSE {}) \cup (IF c.card THEN {"card"} ELSE {})
(* h: c, outcome, there: seq of kinds of files present, same: seq of kinds that are  *)
(* identical to the donor's, tpl: template of the written tokenizer (99: unknown),    *)
(* conf: the model whose configuration was written, other: files of no known kind,     *)
(* touched: a model the merge reads was changed, over: the directory held another      *)
(* merge's files before: those that this merge does not write may stay                 *)
Set(s) == {s[i] : i \in DOMAIN s}
CompanionClauses(h) ==
  LET c == h.c IN
  IF Fails(c) THEN (IF h.outcome = "ok" THEN {"bad-template-accepted"} ELSE {})
  ELSE IF h.outcome # "ok" THEN {"valid-merge-refused"}
  ELSE (IF Present(c) \subseteq Set(h.there) THEN {} ELSE {"file-missing"})
       \cup (IF h.over \/ Absent(c) \cap Set(h.there) = {} THEN {} ELSE {"surplus-file"})
       \cup (IF Verbatim(c) \subseteq Set(h.same) THEN {} ELSE {"wrong-donor"})
       \cup (IF ~("tok" \in Set(h.there)) \/ (h.over /\ (~HasTok(c) \/ c.chat \in {"", "auto", "bad"})) \/ h.tpl \in Templates(c) THEN {} ELSE {"wrong-template"})
       \cup (IF h.conf = Donor(c) THEN {} ELSE {"wrong-configuration"})
       \cup (IF h.other /\ ~h.over THEN {"surplus-file"} ELSE {})
       \cup (IF h.touched THEN {"input-changed"} ELSE {})
=============================================================================
