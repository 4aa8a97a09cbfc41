-------------------------------- MODULE MCRef --------------------------------
EXTENDS Ref, Json
CONSTANTS EMIT, MAX
VARIABLES x, done
Chars == {"a", "/", "@", "+", "Q", "S"}  \* Q a quote, S a space
Texts(n) == UNION {[1..k -> Chars] : k \in 1..n}
Opt(S) == {<<>>} \cup {<<s>> : s \in S}
Init == /\ done = FALSE
        /\ \E p \in Texts(MAX), r \in Opt(Texts(1)), l \in Opt([p : Texts(1), r : Opt({<<"a">>, <<"@">>})]), a \in Opt({<<"a">>}) :
             x = [p |-> p, r |-> r, l |-> l, a |-> a]
Next == ~done /\ done' = TRUE /\ x' = x
Spec == Init /\ [][Next]_<<x, done>>
RoundTrip == Read(Write(x)) = <<x>>
(* reading a text and printing it again gives the text *)
Stable == LET y == Parse(Spell(x)) IN y # Bad => Spell(y[1]) = Spell(x)
(* simple names are written as text *)
Simple == (\A i \in DOMAIN x.p : x.p[i] \notin {"@", "+"}) /\ x.r = <<>> /\ x.l = <<>> /\ x.a = <<>> => Write(x).form = "text"
Emit == (EMIT /\ ~done) => PrintT(ToJson([x |-> x]))
=============================================================================
