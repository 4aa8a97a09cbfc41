SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
MAXO = 3
MAXD = 3
INVARIANTS Total SameKept Monotone Longest Bytes Itself Emit
