------------------------------ MODULE MCGenome ------------------------------
(* Genotypes written cell by cell.                                                       *)
EXTENDS Genome, Json
CONSTANTS EMIT, WIDE
VARIABLES d, x, at
vars == <<d, x, at>>
LG == IF WIDE THEN {<<2, 0>>, <<2, 1>>, <<3, 1>>, <<3, 3>>, <<5, 1>>, <<5, 0>>, <<9, 3>>, <<3, 2>>} ELSE {<<2, 0>>, <<2, 1>>, <<3, 1>>, <<3, 2>>}
Zero(r) == [g \in 1..Groups(r) |-> [m \in 1..r.n |-> [s \in 1..r.sets |-> [p \in DOMAIN Params[r.method] |-> 0]]]]
NP(r) == Len(Params[r.method])
Cells(r) == Groups(r) * r.n * r.sets * NP(r)
Vals == IF WIDE THEN {-20, -9, -3, 1, 2, 4, 5, 8, 11, 12, 16, 24} ELSE {-3, 8, 20}
Blank == [method |-> "linear", n |-> 2, base |-> 0, layers |-> 2, gran |-> 0, norm |-> 0, neg |-> FALSE, sets |-> 1, smooth |-> FALSE]
Init == at = -8 /\ d = Blank /\ x = Zero(Blank)
(* the definition, one field after the other *)
Field == CASE at = -8 -> {[d EXCEPT !.method = v] : v \in DOMAIN Params}
           [] at = -7 -> {[d EXCEPT !.n = v] : v \in IF WIDE THEN {2, 3} ELSE {2}}
           [] at = -6 -> {[d EXCEPT !.base = v] : v \in 0..(IF d.method = "linear" THEN d.n ELSE d.n + 1)}
           [] at = -5 -> {[d EXCEPT !.layers = v[1], !.gran = v[2]] : v \in LG}
           [] at = -4 -> {[d EXCEPT !.norm = v] : v \in IF WIDE THEN {-1, 0, 1} ELSE {-1}}
           [] at = -3 -> {[d EXCEPT !.neg = v] : v \in BOOLEAN}
           [] at = -2 -> {[d EXCEPT !.sets = v] : v \in IF WIDE THEN 1..3 ELSE 1..2}
           [] at = -1 -> {[d EXCEPT !.smooth = v] : v \in BOOLEAN}
Choose == at < 0 /\ d' \in Field /\ at' = at + 1 /\ (at' = 0 => WIDE \/ Cells(d') <= 6) /\ x' = IF at' = 0 THEN Zero(d') ELSE x
Cell(k) == <<k \div (d.n * d.sets * NP(d)) + 1, ((k \div (d.sets * NP(d))) % d.n) + 1, ((k \div NP(d)) % d.sets) + 1, (k % NP(d)) + 1>>
(* random drops and empty tensors are left out *)
Of(p) == IF p = 1 \/ ~WIDE THEN Vals ELSE IF d.method = "dare_ties" THEN {v \in Vals : Abs(v) >= U} ELSE {v \in Vals : Abs(v) >= 4}
Fill == at >= 0 /\ at < Cells(d) /\ \E v \in Of(Cell(at)[4]) : LET c == Cell(at) IN x' = [x EXCEPT ![c[1]][c[2]][c[3]][c[4]] = v] /\ at' = at + 1 /\ UNCHANGED d
Next == Choose \/ Fill
Spec == Init /\ [][Next]_vars
Full == at = Cells(d) /\ ~Refused(d)
M == Meaning(d, x)
(* the same genotype at the finest granularity means the same *)
Fine == LET e == [d EXCEPT !.gran = 1] IN
  (Full /\ ~d.smooth /\ (d.method = "slerp" => NoTies(d, x))) => Meaning(e, [l \in 1..d.layers |-> x[(l - 1) \div Step(d) + 1]]) = M
(* constants interpolate to themselves; the ends of an interpolation are the end groups *)
Ends == (Full /\ d.smooth) => \A m \in 1..d.n, s \in 1..d.sets : M.layers[1].src[m].v[s] = LayerOf([d EXCEPT !.smooth = FALSE], x, 0).src[m].v[s] /\ (d.layers > 1 =>
                                   M.layers[d.layers].src[m].v[s] = LayerOf([d EXCEPT !.smooth = FALSE], x, d.layers - 1).src[m].v[s])
Bounded == (Full /\ d.method # "slerp") => \A l \in 1..d.layers, m \in 1..d.n, s \in 1..d.sets :
             /\ (~d.neg => M.layers[l].src[m].v[s][1] >= 0)
             /\ (NP(d) = 2 => M.layers[l].src[m].v[s][2] \in 0..(4 * U))
Largest == (Full /\ d.method = "slerp") => \A l \in 1..d.layers : M.layers[l].d <= 0 /\ M.layers[l].src[1].m = M.layers[l].base
Emit == (EMIT /\ at >= 0 /\ (at = Cells(d) \/ (at = 0 /\ Refused(d))) /\ ((d.method = "slerp" /\ ~Refused(d)) => NoTies(d, x))) => PrintT(ToJson([d |-> d, x |-> x, refused |-> Refused(d), m |-> IF Refused(d) THEN <<>> ELSE <<M>>]))
=============================================================================
