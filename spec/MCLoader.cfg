SPECIFICATION Spec
CONSTANTS
  T = 2
  L = 2
  NSH = 2
  LOCK = TRUE
  EMIT = FALSE
INVARIANTS Faithful
CHECK_DEADLOCK FALSE
