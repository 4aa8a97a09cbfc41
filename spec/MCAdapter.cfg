SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS ATOMIC = TRUE
KEYED = TRUE
LEN = 3
EMIT = TRUE
INVARIANTS Right Emit
