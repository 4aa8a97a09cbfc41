------------------------------ MODULE MCVocab ------------------------------
(* All small vocabulary configurations; the output vocabulary is grown token *)
(* by token (in any order) as the tool does.                                 *)
EXTENDS Vocab, TLC, Json
CONSTANTS EMIT, Toks
VARIABLES c, v
Perms == {s \in UNION {[1..n -> Toks] : n \in 1..Cardinality(Toks)} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Entry(t, k, m, u, i, f) == [t |-> t, kind |-> k, m |-> m, u |-> u, i |-> i, force |-> f]
Entries == {<<>>} \cup {<<Entry(t, k, m, "a", 0, f)>> : t \in {"b", "n"}, k \in {"none", "zero", "model", "mtok", "mid"}, m \in 1..2, f \in BOOLEAN}
Space == {[voc |-> <<x, y>>, size |-> <<Len(x) + 1, Len(y)>>, base |-> b, src |-> s, srcm |-> 2,
           toks |-> e, pad |-> p, w |-> <<2, 3>>] :
            x \in Perms, y \in Perms, b \in 0..2, s \in {"union", "base", "model"}, e \in Entries, p \in {0, 4}}
Start(cc) == {<<Seed(cc)[i], i - 1>> : i \in DOMAIN Seed(cc)}
Init == c \in Space /\ v = Start(c)
Grow == \E t \in Wanted(c) : t \notin {x[1] : x \in v} /\ v' = v \cup {<<t, Cardinality(v)>>} /\ UNCHANGED c
Next == Grow
Spec == Init /\ [][Next]_<<c, v>>
Full == {x[1] : x \in v} = Wanted(c)
Distinct == \A x, y \in v : x # y => x[1] # y[1] /\ x[2] # y[2]
FullIsOK == Full => VocabOK(c, v) /\ KeepsIds(c, v)
(* a token a model holds keeps that model's own row, unless overridden *)
OwnKept == \A m \in Models(c) : \A t \in SeqSet(Used(c, m)) : ~Forced(c, t) => EmbedOf(c, m, t) = OwnRow(c, m, t)
(* documented defaults *)
Defaults == \A t \in Wanted(c) \ CfgToks(c) : \A m \in Models(c) :
   ~Has(c, m, t) =>
      /\ (c.base # 0 /\ Has(c, c.base, t) => EmbedOf(c, m, t) = OwnRow(c, c.base, t))
      /\ (\E d \in Models(c) : Holders(c, t) = {d} /\ EmbedOf(c, m, t) = OwnRow(c, d, t)) \/ Cardinality(Holders(c, t)) # 1
(* a forced source gives every model the same row *)
ForceUniform == MustFail(c) \/ \A t \in Wanted(c) : Forced(c, t) => \A m, d \in Models(c) : EmbedOf(c, m, t) = EmbedOf(c, d, t)
Padded == Rows(c) >= Cardinality(Wanted(c)) /\ (c.pad # 0 => Rows(c) % c.pad = 0)
Emit == (EMIT /\ v = Start(c)) => PrintT(ToJson([c |-> c]))
=============================================================================
