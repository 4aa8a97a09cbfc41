SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS ATOMIC = FALSE
KEYED = TRUE
LEN = 3
EMIT = FALSE
INVARIANTS Right Emit
