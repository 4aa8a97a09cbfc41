SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
STEPS = 6
NUMS = {}
Start <- Given
INVARIANTS Emit
