----------------------------- MODULE MCSurgeon -----------------------------
(* Matching vocabularies: every token's row has one origin, shared tokens always    *)
(* keep theirs, allowing more matches only takes tokens from the approximated ones. *)
EXTENDS Surgeon, Json
CONSTANTS EMIT, MAXO, MAXD
T(w, s, r) == [w |-> w, s |-> s, roles |-> r]
Toks == <<T(FALSE, <<65>>, <<>>), T(FALSE, <<65, 66>>, <<>>), T(FALSE, <<65, 66, 67>>, <<>>), T(TRUE, <<65>>, <<>>), T(TRUE, <<65, 66>>, <<>>),
          T(FALSE, <<60, 48, 120, 52, 49, 62>>, <<>>), T(FALSE, <<60, 115, 62>>, <<1>>), T(FALSE, <<60, 98, 62>>, <<1, 2>>), T(FALSE, <<60, 47, 62>>, <<2>>),
          T(FALSE, <<32, 65>>, <<>>), T(FALSE, <<60>>, <<>>)>>
One1(V) == \A i, j \in V : (i # j) => /\ Id(Toks[i]) # Id(Toks[j])
                                        /\ \A r \in 1..2 : ~(\E k \in DOMAIN Toks[i].roles, l \in DOMAIN Toks[j].roles : Toks[i].roles[k] = r /\ Toks[j].roles[l] = r)
Vocabs(n) == {V \in SUBSET DOMAIN Toks : Cardinality(V) \in 1..n /\ One1(V)}
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<Toks[x]>> \o Order(S \ {x})
VARIABLES stage, o, d
vars == <<stage, o, d>>
Init == stage = 0 /\ o = {} /\ d = {}
Next == \/ stage = 0 /\ stage' = 1 /\ o' \in Vocabs(MAXO) /\ UNCHANGED d
        \/ stage = 1 /\ stage' = 2 /\ d' \in Vocabs(MAXD) /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
OV == Order(o)
DV == Order(d)
Ready == stage = 2
Opt == BOOLEAN \X BOOLEAN
Total == Ready => \A i \in DOMAIN DV, b \in Opt : LET f == From(DV[i], OV, b[1], b[2]) IN
            /\ Cardinality(f) <= 1 /\ (f = {}) = (Kind(DV[i], OV, b[1], b[2]) = "new")
SameKept == Ready => \A i \in DOMAIN DV, b \in Opt : Where(Id(DV[i]), OV) # {} => From(DV[i], OV, b[1], b[2]) = Where(Id(DV[i]), OV)
Monotone == Ready => \A i \in DOMAIN DV, b, c \in Opt : ((b[1] => c[1]) /\ (b[2] => c[2]) /\ Kind(DV[i], OV, b[1], b[2]) # "new") => Kind(DV[i], OV, c[1], c[2]) # "new"
Longest == Ready => \A i \in DOMAIN DV : LET f == PrefixMatch(DV[i], OV) IN \A x \in f : /\ Len(OV[x].s) < Len(DV[i].s) /\ OV[x].w = DV[i].w
                        /\ \A y \in DOMAIN OV : (Plain(OV[y]) /\ Plain(DV[i]) /\ Len(OV[y].s) < Len(DV[i].s) /\ SubSeq(DV[i].s, 1, Len(OV[y].s)) = OV[y].s /\ ~Space(OV[y].s)) => Len(OV[y].s) <= Len(OV[x].s)
Bytes == Ready => \A i \in DOMAIN DV, j \in DOMAIN OV : (j \in ByteMatch(DV[i], OV)) = (i \in ByteMatch(OV[j], DV))
(* a vocabulary is found in itself *)
Itself == (Ready /\ o = d) => \A i \in DOMAIN DV : From(DV[i], OV, FALSE, FALSE) = {i}
Sizes == Ready /\ \A k \in {"byte", "prefix"} : \E i \in DOMAIN DV : Kind(DV[i], OV, TRUE, TRUE) = k
Emit == (EMIT /\ Ready /\ \E i \in DOMAIN DV : Kind(DV[i], OV, TRUE, TRUE) \in {"byte", "prefix"}) => PrintT(ToJson([o |-> o, d |-> d]))
=============================================================================
