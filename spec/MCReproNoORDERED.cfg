SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
SEEDED = TRUE
ORDERED = FALSE
FRESH = TRUE
INVARIANTS Same Current
