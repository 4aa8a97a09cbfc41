---------------------------- MODULE MCPresence ----------------------------
(* All weights with up to MaxAlias alternative and MaxTied tied names and all *)
(* contents of NModels checkpoints, built up by storing one tensor at a time. *)
EXTENDS Presence, Json
CONSTANTS EMIT, MaxAlias, MaxTied, NModels
VARIABLES w
Init == \E o \in BOOLEAN, na \in 0..MaxAlias, nt \in 0..MaxTied :
          w = [opt |-> o, na |-> na, nt |-> nt, held |-> [m \in 1..NModels |-> <<>>],
               num |-> [m \in 1..NModels |-> [p \in 1..(1 + na + nt) |-> 12 * m + p]]]
Store(m, p) == /\ ~Holds(w, m, p)
               /\ \A i \in 1..Len(w.held[m]) : w.held[m][i] < p
               /\ w' = [w EXCEPT !.held[m] = Append(@, p)]
Next == \E m \in 1..NModels : \E p \in 1..NameCount(w) : Store(m, p)
Spec == Init /\ [][Next]_w
(* --- laws ---------------------------------------------------------------- *)
(* what the merge takes never depends on lower-priority names *)
Priority == \A m \in Models(w) : \A p \in 1..NameCount(w) :
   (Load(w, m) # 0 /\ p > Load(w, m)) =>
     Load([w EXCEPT !.held[m] = SelectSeq(@, LAMBDA x : x # p)], m) = Load(w, m)
(* every model that has the weight is a giver, and a planned weight has givers *)
GiversHave == /\ \A m \in Models(w) : Has(w, m) => m \in Givers(w)
              /\ (Planned(w) /\ ~Missing(w)) => Givers(w) # {}
(* a required weight that is not refused has every model as giver *)
AllGive == (~w.opt /\ ~Missing(w)) => Givers(w) = Models(w)
(* storing more never turns a served weight into a missing one *)
Monotone == [][Missing(w') => Missing(w)]_w
GrowPlan == [][Planned(w) => Planned(w')]_w
(* the oracle tells sources apart: another stored tensor of the same name set *)
(* would give another mean                                                    *)
Distinct == \A m \in Givers(w) : \A p \in 1..NameCount(w) :
   (Holds(w, m, p) /\ p # Load(w, m)) => Mean([w EXCEPT !.held[m] = <<p>>]) # Mean(w)
Emit == EMIT => PrintT(ToJson([w |-> w]))
=============================================================================
