------------------------------ MODULE MCStack ------------------------------
(* Layer stacks drawn one layer at a time, and stacks read slice by slice.             *)
EXTENDS Front
CONSTANTS N, M, WS
VARIABLES q, ls, left, ss
vars == <<q, ls, left, ss>>
Quota(x) == [m \in DOMAIN x.ws |-> (x.n * x.ws[m]) \div One]
Init == /\ q \in [n : {N}, ws : [1..M -> WS], full : BOOLEAN]
        /\ \E m \in 1..M : q.ws[m] > 0
        /\ ls = <<>> /\ left = Quota(q) /\ ss = <<>>
Draw(m, l) == ls' = Append(ls, [m |-> m, l |-> l, s |-> One]) /\ ss' = Append(ss, [m |-> m, lo |-> l, hi |-> l + 1, s |-> NoV])
Next == /\ \/ /\ ~q.full /\ Len(ls) < q.n
              /\ \E m \in 1..M : q.ws[m] > 0 /\ Draw(m, Len(ls))
              /\ UNCHANGED left
           \/ /\ q.full
              /\ \E m \in 1..M, l \in 0..(q.n - 1) : left[m] > 0 /\ Draw(m, l) /\ left' = [left EXCEPT ![m] = @ - 1]
        /\ UNCHANGED q
Spec == Init /\ [][Next]_vars
Done == ~ENABLED Next
Right == Done => Shuffled(q, ls)
Early == (~Done /\ q.full) => ~Shuffled(q, ls)
(* the slices drawn stack up to the layers drawn, also when neighbours are joined *)
AsSlices == Stack(ss) = ls
Joined == \A i \in 1..(Len(ss) - 1) : (ss[i].m = ss[i + 1].m /\ ss[i].hi = ss[i + 1].lo) =>
  Stack(SubSeq(ss, 1, i - 1) \o <<[ss[i] EXCEPT !.hi = ss[i + 1].hi]>> \o SubSeq(ss, i + 2, Len(ss))) = ls
=============================================================================
