SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
MAXO = 3
MAXD = 2
INVARIANTS Total SameKept Monotone Longest Bytes Itself Emit
