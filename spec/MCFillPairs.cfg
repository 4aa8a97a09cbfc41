SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
NB = 9
NS = 7
WIDE = TRUE
INVARIANTS Emit
