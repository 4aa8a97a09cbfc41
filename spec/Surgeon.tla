------------------------------ MODULE Surgeon ------------------------------
(* mergekit-tokensurgeon: a model gets another model's tokenizer                    *)
(* (mergekit/scripts/tokensurgeon.py, mergekit/tokensurgeon).                       *)
(* A token is [w: does it start a word, s: its characters (codes), roles: of a      *)
(* special token, in order]. The tokens of a model, by id.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
Id(t) == IF t.w THEN <<0 - 1>> \o t.s ELSE IF t.roles # <<>> THEN <<0 - 2, t.roles[1]>> ELSE t.s
None == [w |-> FALSE, s |-> <<>>, roles |-> <<>>]   (* an id no token has *)
Where(id, vocab) == {i \in DOMAIN vocab : vocab[i] # None /\ Id(vocab[i]) = id}
Plain(t) == ~t.w /\ t.roles = <<>>
(* "<0x41>" and "A": one byte *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
ByteName(c) == <<60, 48, 120, HexDigit(c \div 16), HexDigit(c % 16), 62>>
ByteMatch(t, vocab) ==
  IF ~Plain(t) THEN {}
  ELSE IF Len(t.s) = 1 THEN (IF t.s[1] < 256 THEN Where(ByteName(t.s[1]), vocab) ELSE {})
  ELSE UNION {Where(<<c>>, vocab) : c \in {x \in 0..255 : ByteName(x) = t.s}}
(* the longest proper prefix that is a token, and not just white space *)
Space(s) == \A i \in DOMAIN s : s[i] = 32
Prefixes(t) == IF t.roles # <<>> /\ ~t.w THEN {} ELSE {n \in 1..(Len(t.s) - 1) : ~Space(SubSeq(t.s, 1, n))}
PrefixId(t, n) == Id([t EXCEPT !.s = SubSeq(t.s, 1, n)])
PrefixMatch(t, vocab) ==
  LET ns == {n \in Prefixes(t) : Where(PrefixId(t, n), vocab) # {}} IN
  IF ns = {} THEN {} ELSE Where(PrefixId(t, CHOOSE n \in ns : \A x \in ns : x <= n), vocab)
(* where the row of a token comes from: rows of the original matrix, or (<<>>) it is *)
(* to be approximated                                                                *)
Kind(t, vocab, byte, prefix) ==
  IF Where(Id(t), vocab) # {} THEN "same"
  ELSE IF byte /\ ByteMatch(t, vocab) # {} THEN "byte"
  ELSE IF prefix /\ PrefixMatch(t, vocab) # {} THEN "prefix" ELSE "new"
From(t, vocab, byte, prefix) ==
  LET k == Kind(t, vocab, byte, prefix) IN
  CASE k = "same" -> Where(Id(t), vocab) [] k = "byte" -> ByteMatch(t, vocab) [] k = "prefix" -> PrefixMatch(t, vocab) [] OTHER -> {}
(* --- approximations: vectors of integers, results of rationals ------------------ *)
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE a[1] * b[1] + Dot(Tail(a), Tail(b))
AbsS(x) == IF x < 0 THEN 0 - x ELSE x
ScaleV(k, v) == [i \in DOMAIN v |-> k * v[i]]
AddV(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
RECURSIVE SumV(_, _)
SumV(vs, dim) == IF vs = <<>> THEN [i \in 1..dim |-> 0] ELSE AddV(vs[1], SumV(Tail(vs), dim))
Over(v, d) == [i \in DOMAIN v |-> Q(v[i], d)]
Comb(qs, vs, dim) == [j \in 1..dim |-> SumQ([i \in DOMAIN qs |-> Mul(qs[i], I(vs[i][j]))])]
(* what the original's tokenizer makes of a token's text: the pieces *)
RECURSIVE Ramp(_, _, _)
Ramp(n, i, up) == IF i > n THEN <<>> ELSE <<IF up THEN i ELSE n + 1 - i>> \o Ramp(n, i + 1, up)
Subword(how, pieces, head, E, dim) ==
  LET rows == [i \in DOMAIN pieces |-> E[pieces[i] + 1]]
      n == Len(pieces)
      ws == Ramp(n, 1, ~head) IN   (* embeddings: the last piece counts most; head: the first *)
  IF n = 0 THEN Over([i \in 1..dim |-> 0], 1)
  ELSE CASE how = "sum" -> Over(SumV(rows, dim), 1)
         [] how = "mean" -> Over(SumV(rows, dim), n)
         [] how = "weighted_mean" -> Over(SumV([i \in 1..n |-> ScaleV(ws[i], rows[i])], dim), (n * (n + 1)) \div 2)
         [] OTHER -> Over(IF head THEN rows[1] ELSE rows[n], 1)
(* orthogonal matching pursuit over at most two atoms, in integers: the sets of      *)
(* atoms (sequences of indices) it may select and their coefficients                 *)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
Best(r, P, not) == LET m == MaxS({AbsS(Dot(r, P[i])) : i \in DOMAIN P \ not}) IN {i \in DOMAIN P \ not : AbsS(Dot(r, P[i])) = m}
Omp(t, P, R, k, dim) ==
  UNION {LET a == P[i] aa == Dot(a, a) ta == Dot(t, a) r == AddV(ScaleV(aa, t), ScaleV(0 - ta, a)) IN
         IF k = 1 THEN {Comb(<<Q(ta, aa)>>, <<R[i]>>, dim)}
         ELSE {LET b == P[j] ab == Dot(a, b) bb == Dot(b, b) tb == Dot(t, b) det == aa * bb - ab * ab IN
               Comb(<<Q(ta * bb - tb * ab, det), Q(tb * aa - ta * ab, det)>>, <<R[i], R[j]>>, dim) : j \in Best(r, P, {i})}
         : i \in Best(t, P, {})}
(* the k nearest, weighted by how near they are: points on a line, so that distances  *)
(* are integers; one at distance zero is all there is                                  *)
Dist(t, p) == AbsS(t[1] - p[1])
Nearest(t, P, k) == {S \in SUBSET DOMAIN P : Cardinality(S) = k /\ \A i \in S, j \in DOMAIN P \ S : Dist(t, P[i]) <= Dist(t, P[j])}
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
ByDistance(t, P, R, k, dim) ==
  {LET hit == {i \in S : Dist(t, P[i]) = 0}
       use == ToSeq(IF hit # {} THEN hit ELSE S)
       ws == [i \in DOMAIN use |-> IF hit # {} THEN One ELSE Q(1, Dist(t, P[use[i]]))]
       tot == SumQ(ws) IN
   Comb([i \in DOMAIN use |-> Div(ws[i], tot)], [i \in DOMAIN use |-> R[use[i]]], dim) : S \in Nearest(t, P, k)}
(* the k most similar in direction, weighted by cosine; all vectors have integer length *)
Norm(v) == CHOOSE n \in 1..200 : n * n = Dot(v, v)
Cos(a, b) == Q(Dot(a, b), Norm(a) * Norm(b))
Similar(t, P, k) == {S \in SUBSET DOMAIN P : Cardinality(S) = k /\ \A i \in S, j \in DOMAIN P \ S : Le(Cos(t, P[j]), Cos(t, P[i]))}
ByCosine(t, P, R, k, dim) ==
  {LET use == ToSeq(S)
       ws == [i \in DOMAIN use |-> Cos(t, P[use[i]])]
       tot == SumQ(ws) IN
   IF Le(tot, Zero) THEN <<>> ELSE Comb([i \in DOMAIN use |-> Div(ws[i], tot)], [i \in DOMAIN use |-> R[use[i]]], dim) : S \in Similar(t, P, k)}
(* every method that fits the new token by the shared ones carries an affine map       *)
(* between the two spaces over to it                                                   *)
Image(t, M, b) == [i \in DOMAIN b |-> Q(Dot(t, M[i]) + b[i], 1)]
(* --- the judgement ----------------------------------------------------------------- *)
(* x (one matrix): orig, donor (rows), byte, prefix (allowed for it), head, M, b, out   *)
(* (rows, thousandths); h: orig, donor (tokens by id), method, sub, k, exact (is the     *)
(* approximation determined), scale (0: none), noise, pieces                             *)
Shared(h) == {i \in DOMAIN h.donor : h.donor[i] # None /\ Where(Id(h.donor[i]), h.orig) # {}}
Lone1(S) == CHOOSE z \in S : TRUE
SharedSeq(h) == SelectSeq([i \in DOMAIN h.donor |-> i], LAMBDA i : i \in Shared(h))
DonorShared(h, x) == [i \in DOMAIN SharedSeq(h) |-> x.donor[SharedSeq(h)[i]]]
OrigShared(h, x) == [i \in DOMAIN SharedSeq(h) |-> x.orig[Lone1(Where(Id(h.donor[SharedSeq(h)[i]]), h.orig))]]
Dim(x) == Len(x.orig[1])
Allowed(h, x, d) ==
  CASE h.method = "zero" -> {Over([i \in 1..Dim(x) |-> 0], 1)}
    [] h.method = "mean" -> {Over(SumV(x.orig, Dim(x)), Len(x.orig))}
    [] h.method = "subword" -> {Subword(h.sub, h.pieces[d], x.head, x.orig, Dim(x))}
    [] h.method = "omp" -> Omp(x.donor[d], DonorShared(h, x), OrigShared(h, x), h.k, Dim(x))
    [] h.method = "distance" -> ByDistance(x.donor[d], DonorShared(h, x), OrigShared(h, x), h.k, Dim(x))
    [] h.method = "cosine" -> ByCosine(x.donor[d], DonorShared(h, x), OrigShared(h, x), h.k, Dim(x))
    [] OTHER -> {Image(x.donor[d], x.M, x.b)}
(* <<>>: no direction to speak of, anything goes *)
NearV(o, v, s, tol) == v = <<>> \/ \A i \in DOMAIN v : Near(o[i], Mul(v[i], I(s)), 1000, tol)
RowClauses(h, x, d) ==
  LET t == h.donor[d]
      f == From(t, h.orig, x.byte, x.prefix)
      s == IF h.scale = 0 THEN 1 ELSE h.scale IN
  IF t = None THEN (IF \A i \in DOMAIN x.out[d] : x.out[d][i] = 0 THEN {} ELSE {"row-without-token"})
  ELSE IF f # {} THEN (IF \E o \in f : x.out[d] = ScaleV(1000, x.orig[o]) THEN {}
                       ELSE {CASE Kind(t, h.orig, x.byte, x.prefix) = "same" -> "shared-token-changed" [] OTHER -> "matched-token-lost"})
  ELSE IF \E i \in DOMAIN x.out[d] : AbsS(x.out[d][i]) >= 1000000000 THEN {"not-a-number"}
  ELSE IF h.noise \/ ~h.exact[d] THEN {}
  ELSE IF \E v \in Allowed(h, x, d) : NearV(x.out[d], v, s, 20 * s) THEN {} ELSE {"wrong-approximation"}
MatrixClauses(h, x) ==
  IF Len(x.out) # Len(h.donor) THEN {"wrong-number-of-rows"}
  ELSE UNION {RowClauses(h, x, d) : d \in DOMAIN h.donor}
SurgeonClauses(h) ==
  (IF h.inputs THEN {} ELSE {"inputs-changed"}) \cup
  (IF h.outcome # "ok" THEN {"fails"}
   ELSE (IF h.tokenizer THEN {} ELSE {"not-the-donor's-tokenizer"}) \cup
        (IF h.config THEN {} ELSE {"wrong-configuration"}) \cup
        (IF h.others THEN {} ELSE {"other-weights-changed"}) \cup
        (IF h.matrices THEN {} ELSE {"matrix-missing-or-extra"}) \cup
        UNION {MatrixClauses(h, h.ms[i]) : i \in DOMAIN h.ms})
=============================================================================
