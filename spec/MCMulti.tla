------------------------------ MODULE MCMulti ------------------------------
EXTENDS Multi, Json
CONSTANTS EMIT, CRASHES, ORDER
(* a merge is taken to exist when its weights and its configuration are there *)
Exists(disk_, i) == {"weights", "config"} \subseteq disk_[i]
VARIABLES c, disk, val, phase, at, pos, crashes, runs
vars == <<c, disk, val, phase, at, pos, crashes, runs>>
Names == {<<"a", "b", "">>, <<"a", "b", "c">>, <<"a", "a", "b">>}
Files == {"weights", "config", "tok"}
OrderGood == <<"weights", "tok", "config">>
OrderEarly == <<"weights", "config", "tok">>
RefSets(ns) == {<<x>> : x \in {"L1", ns[1], ns[2]}} \cup {<<"L1", ns[2]>>, <<ns[1], "L1">>, <<ns[1], ns[2]>>, <<"L1", IF ns[3] = "" THEN ns[1] ELSE ns[3]>>}
Init == /\ \E ns \in Names, lz \in BOOLEAN, ot \in BOOLEAN :
             c = [merges |-> [i \in 1..3 |-> [name |-> ns[i], kind |-> "", refs |-> <<>>, w |-> <<>>, tok |-> "", bad |-> FALSE]],
                  lazy |-> lz, out |-> ot, pre |-> <<"none", "none", "none">>]
        /\ disk = [i \in 1..3 |-> {}] /\ val = [i \in 1..3 |-> <<0, 0>>]
        /\ phase = "choose" /\ at = 0 /\ pos = 0 /\ crashes = 0 /\ runs = 0
Choose ==
  /\ phase = "choose"
  /\ \E r1, r2, r3 \in RefSets([i \in 1..3 |-> c.merges[i].name]), pr \in {<<"none", "none", "none">>, <<"full", "none", "none">>, <<"part", "full", "none">>}, bd \in {0, 2} :
       LET rs == <<r1, r2, r3>> IN
       /\ c' = [c EXCEPT !.merges = [i \in 1..3 |-> [c.merges[i] EXCEPT !.refs = rs[i], !.w = [j \in DOMAIN rs[i] |-> IF j = 1 THEN 1 ELSE 0 - 1], !.bad = (bd = i),
                                       !.kind = IF i = 1 THEN "linear" ELSE IF i = 2 THEN "task" ELSE "stack"]], !.pre = pr]
       /\ disk' = [i \in 1..3 |-> CASE pr[i] = "full" -> Files [] pr[i] = "part" -> {"weights"} [] pr[i] = "none" -> {}]
       /\ val' = [i \in 1..3 |-> IF pr[i] = "full" THEN PreVal(i) ELSE <<0, 0>>]
  /\ phase' = "chosen" /\ UNCHANGED <<at, pos, crashes, runs>>
(* a run: only chains that are not refused; done = disk complete and val set *)
Start == /\ phase = "chosen" /\ ~Refused(c) /\ c.lazy /\ \A i \in 1..3 : ~Broken(c, i)
         /\ phase' = "run" /\ at' = 0 /\ runs' = runs + 1 /\ UNCHANGED <<c, disk, val, pos, crashes>>
Pick == /\ phase = "run" /\ at = 0
        /\ \E i \in 1..3 : /\ ~Exists(disk, i) /\ \A j \in Deps(c, i) : Exists(disk, j)
                           /\ at' = i
        /\ pos' = 1 /\ UNCHANGED <<c, disk, val, phase, crashes, runs>>
(* the files are written in a fixed order, over whatever is there *)
Write == /\ phase = "run" /\ at # 0
         /\ disk' = [disk EXCEPT ![at] = @ \cup {ORDER[pos]}]
         /\ val' = IF ORDER[pos] = "weights" THEN [val EXCEPT ![at] = Val(c, at)] ELSE val
         /\ IF pos = 3 THEN at' = 0 /\ pos' = 0 ELSE at' = at /\ pos' = pos + 1
         /\ UNCHANGED <<c, phase, crashes, runs>>
Crash == /\ phase = "run" /\ crashes < CRASHES
         /\ phase' = "chosen" /\ at' = 0 /\ pos' = 0 /\ crashes' = crashes + 1 /\ UNCHANGED <<c, disk, val, runs>>
End == /\ phase = "run" /\ at = 0 /\ \A i \in 1..3 : Exists(disk, i)
       /\ phase' = "ended" /\ UNCHANGED <<c, disk, val, at, pos, crashes, runs>>
Next == Choose \/ Start \/ Pick \/ Write \/ Crash \/ End
Spec == Init /\ [][Next]_vars
(* what exists is complete and right, at every moment *)
Whole == phase \in {"run", "ended"} => \A i \in 1..3 : Exists(disk, i) => (disk[i] = Files \/ i = at) /\ (at # i => val[i] = Val(c, i))
WholeAlways == phase \in {"chosen"} /\ runs > 0 => \A i \in 1..3 : Exists(disk, i) => disk[i] = Files
Done == phase = "ended" => \A i \in 1..3 : val[i] = Val(c, i) /\ disk[i] = Files
(* a legal chain can always be finished: some merge is ready *)
Ready == phase = "run" /\ at = 0 => (\A i \in 1..3 : Exists(disk, i)) \/ \E i \in 1..3 : ~Exists(disk, i) /\ \A j \in Deps(c, i) : Exists(disk, j)
Emit == (EMIT /\ phase = "chosen" /\ runs = 0) => PrintT(ToJson([c |-> c]))
=============================================================================
