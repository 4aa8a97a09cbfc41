SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS LISTED = FALSE
EMIT = TRUE
INVARIANTS OnItsOwn Loadable Complete Monotone Emit
