---------------------------- MODULE MCCompanion ----------------------------
EXTENDS Companion, Json
CONSTANTS EMIT
VARIABLES c, done
Init == /\ done = FALSE
        /\ \E ord \in {<<1>>, <<1, 2>>, <<2, 1, 3>>}, b \in 0..3, ch \in {"", "auto", "name", "text", "bad"}, s \in {0, 0 - 1, 0 - 2, 1, 2}, cp \in BOOLEAN, cd \in BOOLEAN :
             c = [n |-> 3, order |-> ord, base |-> b, tok |-> <<>>, tpl |-> <<>>, extra |-> <<>>, arch |-> "", source |-> s, chat |-> ch, copy |-> cp, card |-> cd]
Next == /\ ~done /\ done' = TRUE
        /\ \E tk \in {<<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>, <<FALSE, FALSE, FALSE>>}, tp \in [1..3 -> 0..2],
              ex \in {<<<<>>, <<"gen">>, <<>>>>, <<<<"gen">>, <<>>, <<"gen">>>>} :
             /\ c.source # 0 => tk = <<TRUE, TRUE, TRUE>>
             /\ c.source > 0 => c.source \in Refs(c)
             /\ c' = [c EXCEPT !.tok = tk, !.tpl = [i \in 1..3 |-> IF tk[i] THEN tp[i] ELSE 0], !.extra = ex]
Spec == Init /\ [][Next]_<<c, done>>
(* a template is written only if it was asked for or some tokenizer has it *)
Origin == done => \A t \in Templates(c) : t > 0 => \E m \in Refs(c) : c.tpl[m] = t
Definite == done /\ c.chat # "bad" => Templates(c) # {}
Unique == done /\ c.chat # "auto" => Cardinality(Templates(c)) <= 1
Majority == done /\ c.chat = "auto" => \A t \in 1..2 : 2 * Count(c, t) > Cardinality(Votes(c)) => Templates(c) = {t}
Apart == done => Absent(c) \cap (Present(c) \cup Verbatim(c)) = {}
Emit == (EMIT /\ done) => PrintT(ToJson([c |-> c]))
=============================================================================
