SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
STEPS = 11
WIDE = TRUE
INVARIANTS Emit
