------------------------------- MODULE Forms -------------------------------
(* Different ways to write down one merge (mergekit/config.py, mergekit/plan.py):   *)
(* rewritings of a configuration (see Plan) that must not change what it means, for  *)
(* whatever merge method. Meaning: for every output tensor the inputs in order, the  *)
(* value of every per-source and global parameter for it, and the base model.        *)
EXTENDS Plan, TLC
Strip(ins, b) == SelectSeq(ins, LAMBDA x : x.m # b)
Meaning(c) ==
  LET p == PRun(c, PInit) IN
  IF p.ph = "error" THEN <<"error">>
  ELSE [i \in DOMAIN p.out |->
          LET e == p.out[i]
              b == BaseOf(c, e.sl)
              ins == [j \in DOMAIN e.in |-> [m |-> e.in[j].m, x |-> e.in[j].x, v |-> Param(c, e, j)]] IN
          [o |-> e.o, ins |-> Strip(ins, b), base |-> b, withBase |-> {ins[j] : j \in {k \in DOMAIN ins : ins[k].m = b}},
           lam |-> FirstOf(<<Eval(e.sl.lam, Name(e.o), e.t), Eval(c.modlam, Name(e.o), e.t), Eval(c.glam, Name(e.o), e.t)>>)]]
(* --- rewritings -------------------------------------------------------------------- *)
IsGrad(s) == s.kind = "grad" \/ (s.kind = "cond" /\ \E i \in DOMAIN s.v : s.v[i].s.kind = "grad")
Settings(c) == {c.modw, c.modlam, c.gw, c.glam} \cup
  UNION {{c.slices[i].w, c.slices[i].lam} \cup {c.slices[i].src[j].w : j \in DOMAIN c.slices[i].src} : i \in DOMAIN c.slices}
Whole(c) == c.form \in {"models", "mod-models"}
Modular(c) == c.form \in {"mod-models", "mod-slices"}
ToSlices(c) == IF Whole(c) THEN {[c EXCEPT !.form = IF Modular(c) THEN "mod-slices" ELSE "slices", !.slices = Slices(c)]} ELSE {}
ToModules(c) == IF Modular(c) THEN {} ELSE {[c EXCEPT !.form = IF Whole(c) THEN "mod-models" ELSE "mod-slices"]}
ListBase(c) == IF ~Whole(c) \/ Slices(c) = c.slices THEN {}
  ELSE {[c EXCEPT !.slices[1].src = SubSeq(@, 1, i) \o <<Slices(c)[1].src[Len(@) + 1]>> \o SubSeq(@, i + 1, Len(@))] : i \in 0..Len(c.slices[1].src)}
Cut(sl, k) == <<[sl EXCEPT !.src = [i \in DOMAIN sl.src |-> [sl.src[i] EXCEPT !.hi = sl.src[i].lo + k]]],
                [sl EXCEPT !.src = [i \in DOMAIN sl.src |-> [sl.src[i] EXCEPT !.lo = sl.src[i].lo + k]]]>>
Split(c) == IF Whole(c) \/ \E s \in Settings(c) : IsGrad(s) THEN {}
  ELSE {[c EXCEPT !.slices = SubSeq(@, 1, x[1] - 1) \o Cut(@[x[1]], x[2]) \o SubSeq(@, x[1] + 1, Len(@))] :
        x \in {<<i, k>> \in (DOMAIN c.slices) \X (1..11) : EvenSlice(c.slices[i]) /\ k < Len1(c.slices[i])}}
(* a setting moves to the next inner level, where nothing is set *)
NoneS(s) == s.kind = "none"
PushSource(c) == {[c EXCEPT !.slices[i].w = NoSet, !.slices[i].src = [j \in DOMAIN @ |-> [@[j] EXCEPT !.w = c.slices[i].w]]] :
                  i \in {k \in DOMAIN c.slices : ~Whole(c) /\ ~NoneS(c.slices[k].w) /\ \A j \in DOMAIN c.slices[k].src : NoneS(c.slices[k].src[j].w)}}
PushSlice(c) ==
  (IF ~Whole(c) /\ NoneS(c.modw) /\ ~NoneS(c.gw) /\ \A i \in DOMAIN c.slices : NoneS(c.slices[i].w)
   THEN {[c EXCEPT !.gw = NoSet, !.slices = [i \in DOMAIN @ |-> [@[i] EXCEPT !.w = c.gw]]]} ELSE {}) \cup
  (IF ~Whole(c) /\ NoneS(c.modlam) /\ ~NoneS(c.glam) /\ \A i \in DOMAIN c.slices : NoneS(c.slices[i].lam)
   THEN {[c EXCEPT !.glam = NoSet, !.slices = [i \in DOMAIN @ |-> [@[i] EXCEPT !.lam = c.glam]]]} ELSE {})
PushModule(c) ==
  (IF Modular(c) /\ NoneS(c.modw) /\ ~NoneS(c.gw) THEN {[c EXCEPT !.gw = NoSet, !.modw = c.gw]} ELSE {}) \cup
  (IF Modular(c) /\ NoneS(c.modlam) /\ ~NoneS(c.glam) THEN {[c EXCEPT !.glam = NoSet, !.modlam = c.glam]} ELSE {})
SliceBase(c) == IF Whole(c) \/ c.base = 0 THEN {} ELSE {[c EXCEPT !.slices[i].base = c.base] : i \in {k \in DOMAIN c.slices : c.slices[k].base = 0}}
(* ways to spell one setting *)
Never == [f |-> <<"nothing">>, s |-> [kind |-> "num", g |-> <<5>>, v |-> <<>>]]
Always(s) == [f |-> <<>>, s |-> s]
Cond(v) == [kind |-> "cond", g |-> <<>>, v |-> v]
Spellings(s) ==
  CASE s.kind = "num" -> {[s EXCEPT !.kind = "grad"], Cond(<<Always(s)>>), Cond(<<Never, Always(s)>>), Cond(<<Always(s), Never>>), Cond(<<[f |-> <<"*">>, s |-> s]>>)}
    [] s.kind = "grad" -> {Cond(<<Always(s)>>), Cond(<<Never, Always(s)>>)}
    [] s.kind = "cond" -> {Cond(<<Never>> \o s.v), Cond(s.v \o s.v), Cond(s.v \o <<Never>>)}
    [] OTHER -> {Cond(<<Never>>)}
Spell(c) ==
  {[c EXCEPT !.gw = s] : s \in Spellings(c.gw)} \cup {[c EXCEPT !.glam = s] : s \in Spellings(c.glam)} \cup
  (IF Modular(c) THEN {[c EXCEPT !.modw = s] : s \in Spellings(c.modw)} \cup {[c EXCEPT !.modlam = s] : s \in Spellings(c.modlam)} ELSE {}) \cup
  (IF Whole(c) THEN {} ELSE UNION {{[c EXCEPT !.slices[i].w = s] : s \in Spellings(c.slices[i].w)} \cup {[c EXCEPT !.slices[i].lam = s] : s \in Spellings(c.slices[i].lam)} : i \in DOMAIN c.slices}) \cup
  UNION {UNION {{[c EXCEPT !.slices[i].src[j].w = s] : s \in Spellings(c.slices[i].src[j].w)} : j \in DOMAIN c.slices[i].src} : i \in DOMAIN c.slices}
Structural(c) == ToSlices(c) \cup ToModules(c) \cup ListBase(c) \cup Split(c) \cup PushSource(c) \cup PushSlice(c) \cup PushModule(c) \cup SliceBase(c)
(* --- verdict: h.cs: configurations, h.d: what came out of each (0: refused) ---------- *)
FormsClauses(h) ==
  (IF \A i \in DOMAIN h.cs : Meaning(h.cs[i]) = Meaning(h.cs[1]) THEN {} ELSE {"machinery:forms-differ-in-meaning"}) \cup
  (IF \A i \in DOMAIN h.d : h.d[i] = h.d[1] THEN {} ELSE {"equivalent-forms-differ"})
=============================================================================
