SPECIFICATION Spec
CONSTANTS
  T = 1
  L = 3
  NSH = 2
  LOCK = TRUE
  EMIT = TRUE
INVARIANTS Faithful Emit
CHECK_DEADLOCK FALSE
