SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
SEEDED = FALSE
ORDERED = TRUE
FRESH = TRUE
INVARIANTS Same Current
