SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS LISTED = TRUE
EMIT = FALSE
INVARIANTS OnItsOwn Loadable
