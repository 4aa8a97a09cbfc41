------------------------------ MODULE MCRepro ------------------------------
(* Two runs of the same merge. A run may start after anything else happened in    *)
(* the process (numbers drawn, models loaded when they had other contents), reads *)
(* models in some order, draws random numbers for each, and its tensors reach the *)
(* disk in some order.                                                            *)
EXTENDS Repro, Json
CONSTANTS SEEDED,   (* the random state is set when a merge starts *)
          ORDERED,  (* models are visited in configuration order *)
          FRESH,    (* models are read anew by every merge *)
          EMIT
Models == 1..2
Tensors == 1..2
VARIABLES phase, run, rng, cache, disk, todo, out, result, opts
vars == <<phase, run, rng, cache, disk, todo, out, result, opts>>
Options == [async : BOOLEAN, threads : 1..2, shard : {0, 1}, safe : BOOLEAN, lazy : BOOLEAN, clone : BOOLEAN, lowcpu : BOOLEAN]
Plain == [async |-> FALSE, threads |-> 1, shard |-> 0, safe |-> TRUE, lazy |-> FALSE, clone |-> FALSE, lowcpu |-> FALSE]
Init == /\ phase = "between" /\ run = 1 /\ rng = 0 /\ cache = [m \in Models |-> 0] /\ disk = [m \in Models |-> 1]
        /\ todo = <<>> /\ out = [t \in Tensors |-> <<>>] /\ result = <<>> /\ opts = Plain
(* between merges: other draws, other merges of these models, models rewritten *)
Draw == phase = "between" /\ rng < 2 /\ rng' = rng + 1 /\ UNCHANGED <<phase, run, cache, disk, todo, out, result, opts>>
Other == phase = "between" /\ \E m \in Models : cache[m] = 0 /\ cache' = [cache EXCEPT ![m] = disk[m]] /\ UNCHANGED <<phase, run, rng, disk, todo, out, result, opts>>
Rewrite == phase = "between" /\ \E m \in Models : disk[m] = 1 /\ disk' = [disk EXCEPT ![m] = 2] /\ UNCHANGED <<phase, run, rng, cache, todo, out, result, opts>>
Perms == IF ORDERED THEN {<<1, 2>>} ELSE {<<1, 2>>, <<2, 1>>}
Start == /\ phase = "between" /\ run <= 2 /\ \A m \in Models : disk[m] = 2   (* both runs see the final contents *)
         /\ rng' = (IF SEEDED THEN 10 ELSE rng)
         /\ cache' = [m \in Models |-> IF FRESH \/ cache[m] = 0 THEN disk[m] ELSE cache[m]]
         /\ \E p \in Perms : todo' = <<<<1, p[1]>>, <<1, p[2]>>, <<2, p[1]>>, <<2, p[2]>>>>
         /\ out' = [t \in Tensors |-> <<>>] /\ opts' \in (IF run = 1 THEN {Plain} ELSE {[Plain EXCEPT !.async = TRUE], Plain})
         /\ phase' = "run" /\ UNCHANGED <<run, disk, result>>
Step == /\ phase = "run" /\ todo # <<>>
        /\ LET t == Head(todo)[1] m == Head(todo)[2] IN out' = [out EXCEPT ![t] = @ \o <<<<m, cache[m], rng>>>>]
        /\ rng' = rng + 1 /\ todo' = Tail(todo) /\ UNCHANGED <<phase, run, cache, disk, result, opts>>
Set(s) == {s[i] : i \in DOMAIN s}
Finish == /\ phase = "run" /\ todo = <<>> /\ result' = Append(result, [t \in Tensors |-> Set(out[t])])
          /\ run' = run + 1 /\ phase' = "between" /\ UNCHANGED <<rng, cache, disk, todo, out, opts>>
Vector == /\ run = 3 /\ EMIT /\ phase = "between" /\ phase' = "vector" /\ opts' \in Options /\ UNCHANGED <<run, rng, cache, disk, todo, out, result>>
Next == Draw \/ Other \/ Rewrite \/ Start \/ Step \/ Finish \/ Vector
Spec == Init /\ [][Next]_vars
Same == Len(result) = 2 => result[1] = result[2]
Current == \A i \in DOMAIN result : \A t \in Tensors : \A x \in result[i][t] : x[2] = 2
Emit == phase = "vector" => PrintT(ToJson([o |-> opts]))
=============================================================================
