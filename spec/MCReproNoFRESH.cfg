SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
SEEDED = TRUE
ORDERED = TRUE
FRESH = FALSE
INVARIANTS Same Current
