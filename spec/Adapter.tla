------------------------------ MODULE Adapter ------------------------------
(* A model with an adapter ("MODEL+ADAPTER") in a merge stands for the base model  *)
(* with the adapter applied, whatever earlier merges left in the adapter cache     *)
(* (mergekit/common.py ModelReference.merged, mergekit/io/tasks.py LoaderCache).   *)
(* h.world: shape: per module [rows, cols]; bases: seq of (module -> values, row   *)
(* by row); ads: seq of [alpha, r, on, a, b, full] with, per module, whether it is *)
(* adapted, A (r x cols), B (rows x r), and the values that replace it (or <<>>).  *)
(* h.events: what happened one after the other with one cache directory:           *)
(* [kind, method, refs (seq of [b, a], a = 0: no adapter), w, cache (is there a     *)
(* cache directory), dtype, missing (an adapter is not there), outcome, out, made,  *)
(* inputs (model and adapter directories are as before)]                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsA(x) == IF x < 0 THEN 0 - x ELSE x
(* bfloat16 holds 8 significant bits; values below 512 occur, ties go to even *)
ToBf(v) == LET a == AbsA(v)
               r == IF a <= 256 \/ a % 2 = 0 THEN a ELSE IF ((a - 1) \div 2) % 2 = 0 THEN a - 1 ELSE a + 1
           IN IF v < 0 THEN 0 - r ELSE r
InDtype(d, v) == IF d = "bfloat16" THEN ToBf(v) ELSE v
RECURSIVE Dot(_, _, _, _, _, _, _)
Dot(A, B, i, k, r, cols, q) ==
  IF q > r THEN 0 ELSE B[(i - 1) * r + q] * A[(q - 1) * cols + k] + Dot(A, B, i, k, r, cols, q + 1)
Applied(w, ref, d, m) ==
  LET base == w.bases[ref.b][m] IN
  IF ref.a = 0 THEN base
  ELSE LET ad == w.ads[ref.a] cols == w.shape[m][2] IN
       IF ad.full[m] # <<>> THEN ad.full[m]
       ELSE [x \in DOMAIN base |->
               InDtype(d, base[x]) +
               (IF ad.on[m] THEN (ad.alpha * Dot(ad.a[m], ad.b[m], ((x - 1) \div cols) + 1, ((x - 1) % cols) + 1, ad.r, cols, 1)) \div ad.r ELSE 0)]
RECURSIVE SumW(_, _, _, _)
SumW(vs, ws, k, x) == IF k > Len(vs) THEN 0 ELSE ws[k] * vs[k][x] + SumW(vs, ws, k + 1, x)
Result(w, e, m) ==
  LET vs == [k \in DOMAIN e.refs |-> Applied(w, e.refs[k], e.dtype, m)] IN
  CASE e.method = "passthrough" -> vs[1]
    [] e.method = "linear" -> [x \in DOMAIN vs[1] |-> SumW(vs, e.w, 1, x)]
    [] OTHER -> [x \in DOMAIN vs[1] |-> vs[1][x] + SumW([k \in DOMAIN vs |-> [y \in DOMAIN vs[k] |-> vs[k][y] - vs[1][y]]], e.w, 2, x)]
Adapted(e) == \E k \in DOMAIN e.refs : e.refs[k].a # 0
Legal(e) == Adapted(e) => e.cache
(* an adapter that is not there may still be in the cache *)
EventClauses(w, e) ==
  (IF e.inputs THEN {} ELSE {"inputs-changed"}) \cup
  (IF e.kind # "merge" THEN {}
   ELSE IF ~Legal(e) THEN (IF e.outcome = "ok" THEN {"merged-without-adapter"} ELSE {}) \cup (IF e.made THEN {"refused-but-written"} ELSE {})
   ELSE IF e.outcome # "ok" THEN (IF ~e.missing THEN {"adapter-merge-fails"} ELSE IF e.made THEN {"refused-but-written"} ELSE {})
   ELSE IF Len(e.out) # Len(w.shape) THEN {"weights-missing"}
   ELSE UNION {IF e.out[m] = Result(w, e, m) THEN {}
               ELSE IF e.out[m] = Result(w, [e EXCEPT !.refs = [k \in DOMAIN e.refs |-> [b |-> e.refs[k].b, a |-> 0]]], m) THEN {"adapter-not-applied"}
               ELSE IF e.out[m] = Result(w, [e EXCEPT !.dtype = IF e.dtype = "bfloat16" THEN "none" ELSE "bfloat16"], m) THEN {"another-dtype"}
               ELSE {"wrong-values"} : m \in DOMAIN w.shape})
AdapterClauses(h) == UNION {EventClauses(h.world, h.events[i]) : i \in DOMAIN h.events}
=============================================================================
