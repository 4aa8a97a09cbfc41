------------------------------- MODULE MCPlan -------------------------------
(* The planner explored over a space of configurations.  SPACE selects it:  *)
(*  "layout": which layers of which models are stacked, all slice layouts   *)
(*  "param":  every combination of settings at the four levels              *)
EXTENDS Plan, TLC, Json
CONSTANTS SPACE, EMIT, D
VARIABLES c, s

Num(v) == [kind |-> "num", g |-> <<v>>, v |-> <<>>]
Gr(v) == [kind |-> "grad", g |-> v, v |-> <<>>]
Cond(v) == [kind |-> "cond", g |-> <<>>, v |-> v]
Filt(f, x) == [f |-> f, s |-> x]
Ranges == {r \in (0..D) \X (0..(D + 1)) : r[1] <= r[2] /\ r[2] - r[1] <= 2}
Src1 == {[m |-> m, lo |-> r[1], hi |-> r[2], w |-> NoSet] : m \in 1..2, r \in Ranges}
SrcSeqs == {<<a>> : a \in Src1} \cup {<<a, b>> : a \in {x \in Src1 : x.m = 1}, b \in {x \in Src1 : x.m = 2}}
Slice(ss) == [base |-> 0, w |-> NoSet, lam |-> NoSet, src |-> ss]
Layouts == {[method |-> "linear", form |-> "slices", depth |-> <<D, D>>, base |-> 0,
             slices |-> sl, modw |-> NoSet, modlam |-> NoSet, gw |-> Num(2), glam |-> NoSet] :
              sl \in {<<Slice(a)>> : a \in SrcSeqs} \cup {<<Slice(a), Slice(b)>> : a, b \in SrcSeqs}}

Settings == {NoSet, Num(2), Gr(<<1, 4>>), Gr(<<0, 3, 1>>),
             Cond(<<Filt(<<"q", "_", "proj">>, Num(3))>>),
             Cond(<<Filt(<<"layer", "s", ".", "1">>, Gr(<<5, 2>>)), Filt(<<"*">>, Num(7))>>)}
(* the settings of different levels have different values *)
Up(g, k) == [i \in DOMAIN g |-> g[i] + k]
Bump(x, k) == [x EXCEPT !.g = Up(@, k),
                        !.v = [i \in DOMAIN @ |-> [f |-> @[i].f, s |-> [@[i].s EXCEPT !.g = Up(@, k)]]]]
Params == {[method |-> "task", form |-> "mod-slices", depth |-> <<2, 2, 2>>, base |-> 3,
            slices |-> <<[base |-> 0, w |-> Bump(b, 1), lam |-> IF a.kind = "num" THEN Num(3) ELSE NoSet,
                          src |-> <<[m |-> 1, lo |-> 0, hi |-> 2, w |-> a],
                                    [m |-> 2, lo |-> 0, hi |-> 2, w |-> NoSet],
                                    [m |-> 3, lo |-> 0, hi |-> 2, w |-> NoSet]>>]>>,
            modw |-> Bump(m, 2), modlam |-> IF b.kind = "num" THEN Num(2) ELSE NoSet,
            gw |-> Bump(g, 3), glam |-> IF m.kind = "grad" THEN Gr(<<1, 3>>) ELSE NoSet] :
             a, b, m, g \in Settings}
Space == IF SPACE = "layout" THEN Layouts ELSE Params

Init == c \in Space /\ s = PInit
Next == s.ph \notin {"done", "error"} /\ s' = PStep(c, s) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, s>>

(* --- properties of planning ------------------------------------------------ *)
(* output layers are numbered 0.. without gap or repeat, every tensor once *)
Once == \A i, j \in DOMAIN s.out : i # j => s.out[i].o # s.out[j].o
NoGap == {s.out[i].o.l : i \in DOMAIN s.out} \ {0 - 1} = 0..(s.next - 1)
(* each source is read within its declared range, in order *)
InRange == \A i \in DOMAIN s.out : s.out[i].o.l >= 0 =>
             \A j \in DOMAIN s.out[i].in : LET e == s.out[i] IN
               /\ e.in[j].x.l >= e.sl.src[j].lo /\ e.in[j].x.l < e.sl.src[j].hi
               /\ e.in[j].x.k = e.o.k
RECURSIVE Total(_)
Total(S0) == IF S0 = <<>> THEN 0 ELSE Len1(S0[1]) + Total(Tail(S0))
Complete == s.ph = "done" => s.next = Total(Slices(c)) /\ Len(s.out) = 3 + 9 * s.next
(* precedence, said independently of FirstOf: an outer level never matters *)
(* where an inner one yields a value                                        *)
Masked == s.ph = "done" => \A i \in DOMAIN s.out : LET e == s.out[i] IN \A j \in DOMAIN e.in :
            LET nm == Name(e.in[j].x)
                inner == Eval(e.sl.src[j].w, nm, e.t)
                c2 == [c EXCEPT !.gw = Num(99), !.modw = Num(98)]
            IN /\ inner # None => Param(c2, e, j) = inner /\ Param(c, e, j) = inner
               /\ (inner = None /\ Eval(e.sl.w, nm, e.t) # None) => Param(c2, e, j) = Param(c, e, j)
(* gradients hit their end points and stay within the hull *)
Hull == (s.ph = "done" /\ SPACE = "param") => \A i \in DOMAIN s.out : LET e == s.out[i] IN
          Le(Zero, e.t) /\ Le(e.t, One) /\ (e.o.l >= 0 /\ e.o.l = 0 => e.t = Zero) /\ (e.o.l = 1 => e.t = One)
Emit == (EMIT /\ s.ph \in {"done", "error"}) => PrintT(ToJson([c |-> c]))
=============================================================================
