------------------------------- MODULE Dtype -------------------------------
(* Number formats during a merge (io/tasks.py, plan.py, merge.py): every       *)
(* source tensor is first brought to `dtype`, combined, and the result stored  *)
(* as `out_dtype`; the written config names the format of the model.           *)
(* Values are whole numbers; a format keeps p significant bits.                *)
(*                                                                             *)
(* c: method ("linear": sum of two sources, weight 1 each, not normalized;     *)
(*    "pass": the single source; "task": base + (other - base), weight 1;      *)
(*    "slerp1": slerp at t = 1, the other model);                              *)
(*    types: stored format per source; dtype, out ("" = not given);            *)
(*    vals: stored numbers, per source a sequence of equal length;             *)
(*    fixed: "" or a format the architecture prescribes for this weight;       *)
(* o: outcome, type: stored format; vals: numbers read back; cfg: format named *)
(*    in config.json                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bits(t) == CASE t = "float16" -> 11 [] t = "bfloat16" -> 8 [] t = "float32" -> 24 [] t = "int64" -> 30
Abs(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE Log(_)
Log(x) == IF x < 2 THEN 0 ELSE 1 + Log(x \div 2)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* nearest representable number, ties to even *)
RndAbs(b, x) == LET u == Pow2(Log(x) + 1 - b)
                    q == x \div u
                    r == x % u
                IN IF u = 1 THEN x
                   ELSE IF 2 * r < u \/ (2 * r = u /\ q % 2 = 0) THEN q * u ELSE (q + 1) * u
Rnd(t, x) == IF x < 0 THEN 0 - RndAbs(Bits(t), 0 - x) ELSE RndAbs(Bits(t), x)
Promote(a, b) == IF a = b THEN a ELSE "float32"
Native(c) == IF Len(c.types) = 1 THEN c.types[1]
             ELSE Promote(c.types[1], c.types[2])
Work(c) == IF c.fixed # "" THEN c.fixed ELSE IF c.dtype # "" THEN c.dtype ELSE Native(c)
Stored(c) == IF c.fixed # "" THEN c.fixed ELSE IF c.out # "" THEN c.out ELSE Work(c)
ConfigType(c) == IF c.out # "" THEN c.out ELSE IF c.dtype # "" THEN c.dtype ELSE c.types[1]
In(c, m, i) == IF c.fixed = "" /\ c.dtype = "" THEN c.vals[m][i] ELSE Rnd(Work(c), c.vals[m][i])
Res(c, i) == CASE c.method = "pass" -> In(c, 1, i)
               [] c.method = "linear" -> Rnd(Work(c), In(c, 1, i) + In(c, 2, i))
               [] c.method = "task" -> Rnd(Work(c), In(c, 1, i) + Rnd(Work(c), In(c, 2, i) - In(c, 1, i)))
               [] c.method = "slerp1" -> In(c, 2, i)
Out(c, i) == Rnd(Stored(c), Res(c, i))
(* without a working format, methods with a base may work in the base's format, *)
(* or refuse sources of different formats                                      *)
MayFail(c) == c.method \in {"task", "slerp1"} /\ c.dtype = "" /\ c.fixed = "" /\ Len(c.types) = 2 /\ c.types[1] # c.types[2]
DtypeClauses(h) ==
  LET c == h.c o == h.o IN
  IF o.outcome # "ok" THEN (IF MayFail(c) THEN {} ELSE {"valid-merge-refused"})
  ELSE (IF o.type = Stored(c) \/ (MayFail(c) /\ c.out = "") THEN {} ELSE {"wrong-format"})
       \cup (IF o.cfg = ConfigType(c) THEN {} ELSE {"config-names-other-format"})
       \cup (IF Len(o.vals) = Len(c.vals[1]) /\ (MayFail(c) \/ \A i \in 1..Len(o.vals) : o.vals[i] = Out(c, i)) THEN {} ELSE {"wrong-rounding"})
=============================================================================
