----------------------------- MODULE Unpickle -----------------------------
(* Opening a pickled checkpoint that may be hostile                          *)
(* (mergekit/io/lazy_unpickle.py).  A file is a program for the pickle       *)
(* machine; opcodes are abstracted to what they do to the stack:             *)
(*  gok/gbad    push a global, on / off the allow-list (two encodings of bad: *)
(*              gbad = GLOBAL, sbad = STACK_GLOBAL)                          *)
(*  ibad        INST: look up a foreign global and call it at once           *)
(*  args        push an argument tuple                                       *)
(*  dict        push a dict                                                  *)
(*  reduce      pop args, pop callable, push call result                     *)
(*  newobj      same, through __new__                                        *)
(*  pop         discard the top of the stack                                 *)
(*  build       pop state, apply to object below                             *)
(*  pok/pbad    push a persistent object with a valid / invalid storage id   *)
(* m: [stack, pc, status, touched]: touched = foreign globals that have been *)
(* resolved or called.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
Ops == {"gok", "gbad", "sbad", "ibad", "args", "dict", "reduce", "newobj", "build", "pop", "pok", "pbad"}
Foreign == {"gbad", "sbad", "ibad"}
MInit == [stack |-> <<>>, status |-> "run", touched |-> 0]
Top(m) == m.stack[Len(m.stack)]
Below(m) == m.stack[Len(m.stack) - 1]
Drop(m, k) == SubSeq(m.stack, 1, Len(m.stack) - k)
Push(m, v) == [m EXCEPT !.stack = Append(@, v)]
Stop(m, why) == [m EXCEPT !.status = why]
Step(m, op) ==
  CASE op \in Foreign -> Stop(m, "refused")       \* looked up, not on the list
    [] op = "gok" -> Push(m, "callable")
    [] op = "args" -> Push(m, "tuple")
    [] op = "dict" -> Push(m, "dict")
    [] op = "pok" -> Push(m, "storage")
    [] op = "pbad" -> Stop(m, "refused")
    [] op \in {"reduce", "newobj"} ->
         IF Len(m.stack) < 2 \/ Top(m) # "tuple" \/ Below(m) # "callable" THEN Stop(m, "malformed")
         ELSE [m EXCEPT !.stack = Append(Drop(m, 2), "object")]
    [] op = "pop" -> IF m.stack = <<>> THEN Stop(m, "malformed") ELSE [m EXCEPT !.stack = Drop(m, 1)]
    [] op = "build" ->
         IF Len(m.stack) < 2 THEN Stop(m, "malformed") ELSE [m EXCEPT !.stack = Drop(m, 1)]

(* the run of a whole program *)
RECURSIVE RunFrom(_, _)
RunFrom(m, p) == IF m.status # "run" THEN m
                 ELSE IF p = <<>> THEN Stop(m, "done")
                 ELSE RunFrom(Step(m, Head(p)), Tail(p))
Run(p) == RunFrom(MInit, p)

(* --- verdict on an observed load ----------------------------------------- *)
UClauses(h) ==
  {c \in {"foreign-code-ran", "foreign-file-accepted", "unpickler-left-patched"} :
     CASE c = "foreign-code-ran" -> h.effects # 0
       [] c = "foreign-file-accepted" -> Run(h.prog).status = "refused" /\ h.outcome # "error"
       [] c = "unpickler-left-patched" -> ~h.restored}
=============================================================================
