SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
SEEDED = TRUE
ORDERED = TRUE
FRESH = TRUE
INVARIANTS Same Current Emit
