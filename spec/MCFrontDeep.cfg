SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
STEPS = 6
WIDE = FALSE
INVARIANTS Steps Commute Broadcast Default Listed
