SPECIFICATION Spec
CONSTANTS
  L = 4
  EMIT = TRUE
INVARIANTS NothingForeign RefusedAtOnce Agrees Emit
CHECK_DEADLOCK FALSE
