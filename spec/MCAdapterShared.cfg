SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS ATOMIC = TRUE
KEYED = FALSE
LEN = 3
EMIT = FALSE
INVARIANTS Right Emit
