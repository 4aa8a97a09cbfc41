------------------------------- MODULE MCMoe -------------------------------
(* Small MoE configurations: every mix of types, experts, shared experts,      *)
(* requested architecture, gate mode and prompt pattern.                       *)
EXTENDS Moe, Json
CONSTANTS EMIT
VARIABLES c, done
Types == {<<t, t, t>> : t \in {"llama", "mistral", "qwen2", "qwen3", "gpt2"}} \cup {<<"llama", "llama", "mistral">>, <<"qwen3", "qwen2", "qwen3">>}
Ex(m, p, n, s) == [m |-> m, pos |-> p, neg |-> n, scale |-> s]
Experts == {
  <<Ex(2, <<1>>, <<>>, <<>>), Ex(3, <<2, 3>>, <<1>>, <<>>)>>,
  <<Ex(2, <<>>, <<>>, <<>>), Ex(3, <<>>, <<>>, <<1, 2>>)>>,
  <<Ex(1, <<1, 2>>, <<3>>, <<1, 4>>), Ex(1, <<3>>, <<>>, <<>>), Ex(1, <<2>>, <<>>, <<>>)>>,
  <<Ex(3, <<1>>, <<>>, <<>>), Ex(2, <<1>>, <<>>, <<>>)>>,
  <<Ex(2, <<3>>, <<>>, <<>>)>> }
Shared == { <<>>, <<Ex(3, <<2>>, <<>>, <<1, 2>>)>>, <<Ex(1, <<>>, <<>>, <<>>)>>, <<Ex(2, <<>>, <<>>, <<>>), Ex(3, <<>>, <<>>, <<>>)>> }
Init == /\ done = FALSE
        /\ \E ty \in Types, ex \in Experts, sh \in Shared, g \in {"random", "cheap_embed", "hidden"},
              a \in {"", "mixtral", "deepseek", "qwen", "qwen3"}, k \in {0, 1, 2}, s \in BOOLEAN :
             c = [types |-> ty, experts |-> ex, shared |-> sh, gate |-> g, arch |-> a, k |-> k, same |-> s, layers |-> 2]
Next == ~done /\ done' = TRUE /\ c' = c
Spec == Init /\ [][Next]_<<c, done>>
(* a model can be built whenever it is not refused, and every place of it has a donor *)
Total == ~Refused(c) => /\ \A s \in Slots(c) : Donor(c, s) \in 1..Len(c.types)
                        /\ Cardinality({s \in Slots(c) : s.kind = "exp"}) = 2 * 3 * Len(c.experts)
                        /\ Cardinality(GateSlots(c)) >= 2 * Len(c.experts)
(* the requested architecture is honoured; Mixtral is preferred *)
Honoured == ~Refused(c) => Asked(Chosen(c), c)
Prefer == (~Refused(c) /\ c.arch = "" /\ Supports("mixtral", c)) => Chosen(c) = "mixtral"
(* attention always comes from the base, expert parts never do unless configured *)
Attention == ~Refused(c) => \A s \in Slots(c) : s.kind = "layer" => Donor(c, s) = 1
Emit == (EMIT /\ ~done) => PrintT(ToJson([c |-> c]))
=============================================================================
