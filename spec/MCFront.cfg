SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
STEPS = 5
WIDE = FALSE
INVARIANTS Steps Commute Broadcast Default Listed
