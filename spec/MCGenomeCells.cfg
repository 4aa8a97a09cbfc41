SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
WIDE = TRUE
INVARIANTS Emit
