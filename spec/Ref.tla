--------------------------------- MODULE Ref ---------------------------------
(* Names of models, and configurations, across writing and reading.            *)
(* A reference is [p: path, r: revision (<<>> none or <<text>>), l: adapter     *)
(* (<<>> or <<[p, r]>>), a: architecture override (<<>> or <<text>>)];          *)
(* texts are sequences of characters.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Split(_, _)
Split(s, x) == IF \A i \in DOMAIN s : s[i] # x THEN <<s>>
               ELSE LET i == CHOOSE j \in DOMAIN s : s[j] = x /\ \A k \in 1..(j - 1) : s[k] # x
                    IN <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), x)
Bad == <<>>
(* PATH[@REV]; Bad or <<[p, r]>> *)
ParsePath(s) == LET c == Split(s, "@") IN
  IF Len(c) = 1 THEN <<[p |-> c[1], r |-> <<>>]>>
  ELSE IF Len(c) = 2 THEN <<[p |-> c[1], r |-> <<c[2]>>]>> ELSE Bad
(* MODEL[+ADAPTER] *)
Parse(s) == LET c == Split(s, "+") m == ParsePath(c[1]) IN
  IF Len(c) > 2 \/ m = Bad THEN Bad
  ELSE IF Len(c) = 1 THEN <<[p |-> m[1].p, r |-> m[1].r, l |-> <<>>, a |-> <<>>]>>
  ELSE LET l == ParsePath(c[2]) IN
       IF l = Bad THEN Bad ELSE <<[p |-> m[1].p, r |-> m[1].r, l |-> l, a |-> <<>>]>>
Text(x) == x.p \o (IF x.r = <<>> THEN <<>> ELSE <<"@">> \o x.r[1])
Spell(x) == Text(x) \o (IF x.l = <<>> THEN <<>> ELSE <<"+">> \o Text(x.l[1]))
Plain(x) == x.a = <<>> /\ Parse(Spell(x)) = <<x>>
(* what is written: a text when that reads back as the same reference,          *)
(* a structure otherwise                                                        *)
Write(x) == IF Plain(x) THEN [form |-> "text", s |-> Spell(x), x |-> x] ELSE [form |-> "struct", s |-> <<>>, x |-> x]
Read(w) == IF w.form = "text" THEN Parse(w.s) ELSE <<w.x>>

(* --- verdict ------------------------------------------------------------------ *)
(* kind "text": s given; got: Bad or <<reference>>                                 *)
(* kind "ref": x given as a structure; got: after validation; back: after writing  *)
(*   (YAML, JSON or a whole configuration) and reading; form: "text" | "struct";   *)
(*   s: the text; same: equal and equally hashed                                   *)
(* kind "config": zero / first / again: digests of the results of the merge, of    *)
(*   the merge with a model card and of its stored configuration, and outcomes,     *)
(*   keeps: the stored text is the given one; equal: the stored configuration      *)
(*   validates to the same settings; intact: the given object is unchanged         *)
RefClauses(h) ==
  CASE h.kind = "text" -> IF h.got = Parse(h.s) THEN {} ELSE {"wrong-reference"}
    [] h.kind = "ref" ->
         (IF h.got = <<h.x>> THEN {} ELSE {"structure-misread"})
         \cup (IF h.back = <<h.x>> THEN {} ELSE {"reference-changed-by-writing"})
         \cup (IF h.form = "text" => (h.s = Spell(h.x) /\ Plain(h.x)) THEN {} ELSE {"ambiguous-text"})
         \cup (IF h.same THEN {} ELSE {"not-equal-after-reading"})
    [] h.kind = "config" ->
         (IF h.outcome1 = h.outcome2 /\ h.outcome1 = h.outcome0 THEN {} ELSE {"different-outcome"})
         \cup (IF h.first = h.again /\ h.first = h.zero THEN {} ELSE {"different-result"})
         \cup (IF h.keeps THEN {} ELSE {"source-not-kept"})
         \cup (IF h.equal THEN {} ELSE {"configuration-changed-by-writing"})
=============================================================================
