------------------------------ MODULE Loader ------------------------------
(* Reading tensors from a (possibly sharded) checkpoint                      *)
(* (mergekit/io/lazy_tensor_loader.py, loader.py, lazy_unpickle.py).         *)
(* st.has = sequence of [name, val]: the checkpoint's contents.  The meaning *)
(* of a lookup depends on the contents only: not on sharding, file format,   *)
(* earlier lookups, flushes or concurrent lookups.                           *)
EXTENDS Naturals, Sequences, FiniteSets
Rng(q) == {q[i] : i \in DOMAIN q}
NamesIn(ck) == {x.name : x \in Rng(ck.has)}
ValOf(ck, n) == (CHOOSE x \in Rng(ck.has) : x.name = n).val

(* the stored name that answers a request: the requested name if stored,     *)
(* else the first stored alias, else none ("")                               *)
Answer(ck, key, aliases) ==
  IF key \in NamesIn(ck) THEN key
  ELSE LET ok == {i \in DOMAIN aliases : aliases[i] \in NamesIn(ck)}
       IN IF ok = {} THEN "" ELSE aliases[CHOOSE i \in ok : \A j \in ok : i <= j]

Expected(ck, e) ==
  LET n == Answer(ck, e.key, e.aliases) IN
  IF n # "" THEN [k |-> "val", v |-> ValOf(ck, n)]
  ELSE IF e.must THEN [k |-> "keyerror", v |-> 0] ELSE [k |-> "none", v |-> 0]

LInit(ck) == [phase |-> "open"]
LClauses(ck, s, e) ==
  CASE e.ev = "get" ->
        LET x == Expected(ck, e) IN
        IF e.res = x THEN {}
        ELSE IF x.k = "val" /\ e.res.k = "val" THEN {"wrong-tensor"}
        ELSE IF x.k = "val" THEN {"stored-tensor-not-found"}
        ELSE IF e.res.k = "val" THEN {"absent-tensor-answered"}
        ELSE {"absence-reported-wrongly"}
    [] e.ev = "names" -> IF Rng(e.names) = NamesIn(ck) THEN {} ELSE {"index-names"}
    [] e.ev = "flush" -> {}
    [] e.ev = "end" -> {}
    [] OTHER -> {"unknown-event"}
LEffect(ck, s, e) == IF e.ev = "end" THEN [phase |-> "closed"] ELSE s
=============================================================================
