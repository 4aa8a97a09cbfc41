------------------------------ MODULE MCMethod ------------------------------
EXTENDS Method, Json
CONSTANTS EMIT
VARIABLES m, c, done
P(n, k, d) == [name |-> n, kind |-> k, def |-> d]
Params == { <<>>, <<P("w", "vector", <<>>)>>, <<P("w", "vector", <<500>>)>>, <<P("s", "scalar", <<>>)>>, <<P("s", "scalar", <<0>>)>>,
            <<P("w", "vector", <<>>), P("s", "scalar", <<1000>>)>>, <<P("s", "scalar", <<>>), P("w", "vector", <<0>>), P("u", "vector", <<>>)>> }
V(n, x) == [name |-> n, v |-> x]
Tops == { <<>>, <<V("w", 0)>>, <<V("s", 0)>>, <<V("s", 2000), V("u", 3000)>> }
Pars == { <<>>, <<V("w", 250)>>, <<V("w", 0), V("u", 1000)>> }
Init == /\ done = FALSE
        /\ \E b \in {"none", "opt", "req"}, ps \in Params, w \in {<<>>, <<"output_weight">>, <<"base_model", "output_weight">>} :
             m = [base |-> b, ps |-> ps, wants |-> w]
        /\ \E ms \in {<<1>>, <<1, 2>>, <<2, 1>>, <<3, 1, 2>>}, b \in {0, 1, 2, 3}, t \in Tops, p1 \in Pars, p2 \in Pars, r \in {"yaml", "raw"} :
             c = [models |-> [i \in DOMAIN ms |-> [id |-> ms[i], par |-> IF ms[i] = 1 THEN p1 ELSE p2]], base |-> b, top |-> t, route |-> r]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<m, c>>
Spec == Init /\ [][Next]_<<m, c, done>>
All == Inputs(c)
(* every input reaches the method exactly once *)
Once == LET o == Order(m, c, All) IN
        /\ Cardinality({o[i] : i \in DOMAIN o}) = Len(o)
        /\ {o[i] : i \in DOMAIN o} \cup (IF m.base # "none" /\ c.base # 0 THEN {c.base} ELSE {}) = {All[i] : i \in DOMAIN All}
        /\ (m.base # "none" /\ c.base # 0) => ~Has(o, c.base)
BaseFirst == (m.base = "none" /\ c.base # 0) => Order(m, c, All)[1] = c.base
(* apart from the base, models keep the order of the configuration *)
KeepsOrder == Without(Order(m, c, All), c.base) = Without(Ids(c), c.base)
(* a value set anywhere beats the default, a model's own beats the general one *)
Precedence == \A i \in Vectors(m) : \A k \in DOMAIN c.models :
  LET id == c.models[k].id v == Vector(m, c, m.ps[i], id) IN
  /\ (Lookup(c.models[k].par, m.ps[i].name) # <<>> => v = Lookup(c.models[k].par, m.ps[i].name))
  /\ (v = <<>> => m.ps[i].def = <<>>)
(* an accepted, determined configuration gives every argument a value *)
Valued == (~Refused(m, c) /\ ~Undetermined(m, c)) =>
  \A i \in Vectors(m) : \A k \in DOMAIN Order(m, c, All) : VecSeen(m, c, All, m.ps[i])[k] # <<>>
Emit == (EMIT /\ ~done) => PrintT(ToJson([m |-> m, c |-> c]))
=============================================================================
