------------------------------- MODULE Multi -------------------------------
(* Chains of merges (mergekit/scripts/multimerge.py) and what interruptions      *)
(* may leave behind (mergekit/merge.py).                                          *)
(*                                                                                *)
(* c.merges: seq of [name, kind, refs, w, tok, bad]; name "" is the final,        *)
(*   unnamed merge; kind "linear": sum of w[i] * refs[i]; "task": refs[1] is the  *)
(*   base, plus w[i] * (refs[i] - base) for the others; "stack": first layer of   *)
(*   refs[1], second layer of the last; refs: names of merges or leaves ("L1"..); *)
(*   tok: model whose tokenizer is used ("" none); bad: cannot be carried out     *)
(* c.lazy, c.out: is there an out path; c.pre: per merge what is at its place     *)
(*   already: "none", "full" or "part" (anything incomplete)                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Leaf(x) == x \in {"L1", "L2", "L3"}
LeafVal(x) == CASE x = "L1" -> <<1, 2>> [] x = "L2" -> <<16, 48>> [] x = "L3" -> <<0 - 5, 7>>
PreVal(i) == <<1000 + i, 2000 + i>>
Ids(c) == DOMAIN c.merges
At(c, x) == CHOOSE i \in Ids(c) : c.merges[i].name = x
Reads(m) == Range(m.refs) \cup ({m.tok} \ {""})
Deps(c, i) == {At(c, x) : x \in {y \in Reads(c.merges[i]) : ~Leaf(y)}}
Dup(c) == \E i, j \in Ids(c) : i < j /\ c.merges[i].name = c.merges[j].name
Homeless(c) == ~c.out /\ \E i \in Ids(c) : c.merges[i].name = ""
RECURSIVE Below(_, _, _)
Below(c, S, n) == IF n = 0 THEN S ELSE Below(c, S \cup UNION {Deps(c, i) : i \in S}, n - 1)
Cyclic(c) == \E i \in Ids(c) : i \in Below(c, Deps(c, i), Len(c.merges))
Refused(c) == Dup(c) \/ Homeless(c) \/ Cyclic(c)
Skip(c, i) == c.lazy /\ c.pre[i] = "full"
RECURSIVE Broken(_, _)
Broken(c, i) == ~Skip(c, i) /\ (c.merges[i].bad \/ \E j \in Deps(c, i) : Broken(c, j))
RECURSIVE Val(_, _)
RECURSIVE Lin(_, _, _, _)
RefVal(c, x) == IF Leaf(x) THEN LeafVal(x) ELSE Val(c, At(c, x))
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Times(k, a) == <<k * a[1], k * a[2]>>
(* sum of w[j] * (refs[j] - off), j = k..n *)
Lin(c, m, k, off) == IF k > Len(m.refs) THEN <<0, 0>> ELSE Plus(Times(m.w[k], Plus(RefVal(c, m.refs[k]), Times(0 - 1, off))), Lin(c, m, k + 1, off))
Val(c, i) ==
  LET m == c.merges[i] IN
  IF Skip(c, i) THEN PreVal(i)
  ELSE CASE m.kind = "linear" -> Lin(c, m, 1, <<0, 0>>)
         [] m.kind = "task" -> Plus(RefVal(c, m.refs[1]), Lin(c, m, 2, RefVal(c, m.refs[1])))
         [] m.kind = "stack" -> <<RefVal(c, m.refs[1])[1], RefVal(c, m.refs[Len(m.refs)])[2]>>
(* h: c, outcome, made: per merge: state of its place after the run ("none",       *)
(* "part", "full", "same": complete and untouched), val: the two layers' values     *)
(* ({} if not constant or incomplete), tok: per merge: tokenizer present, extra:     *)
(* files outside the places of the merges (after interruptions: anything different   *)
(* from an uninterrupted run), touched: a leaf was changed; mid: complete models seen *)
(* after interruptions; faulty: a write was made to fail (copying a tokenizer may     *)
(* then be given up); hidden: such a run ended well though a merge is not complete    *)
MultiClauses(h) ==
  LET c == h.c IN
  IF Refused(c) THEN (IF h.outcome = "ok" THEN {"impossible-chain-accepted"} ELSE {})
                     \cup (IF \A i \in Ids(c) : h.made[i] = (IF c.pre[i] = "full" THEN "same" ELSE c.pre[i]) THEN {} ELSE {"refused-chain-wrote"})
  ELSE LET B == {i \in Ids(c) : Broken(c, i)} IN
       (IF B # {} /\ h.outcome = "ok" THEN {"failure-hidden"} ELSE {})
       \cup (IF \E i \in B : h.made[i] = "full" /\ c.pre[i] # "full" THEN {"failed-merge-complete"} ELSE {})
       \cup (IF B = {} /\ h.outcome # "ok" THEN {"valid-chain-refused"} ELSE {})
       \cup (IF B = {} /\ h.outcome = "ok"
             THEN UNION {(IF h.made[i] = (IF Skip(c, i) THEN "same" ELSE "full") THEN {} ELSE {IF Skip(c, i) THEN "existing-output-redone" ELSE "merge-not-run"})
                         \cup (IF h.val[i] = Val(c, i) THEN {} ELSE {"wrong-result"})
                         \cup (IF Skip(c, i) \/ h.faulty \/ h.tok[i] THEN {} ELSE {"tokenizer-missing"}) : i \in Ids(c)}
             ELSE UNION {IF Skip(c, i) /\ h.made[i] # "same" THEN {"existing-output-redone"} ELSE {} : i \in Ids(c)})
       \cup (IF \E k \in DOMAIN h.mid : h.mid[k].val # Val(c, h.mid[k].i) THEN {"wrong-result-left-behind"} ELSE {})
       \cup (IF h.hidden THEN {"failure-hidden"} ELSE {})
       \cup (IF h.extra THEN {"surplus-file"} ELSE {})
       \cup (IF h.touched THEN {"input-changed"} ELSE {})
=============================================================================
