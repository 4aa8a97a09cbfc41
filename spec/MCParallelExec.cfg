SPECIFICATION Spec
CONSTANTS
  K = 0
  N = 3
  D = 2
  DRAIN = TRUE
  EMIT = FALSE
  ALLOWFAIL = TRUE
INVARIANTS Once DupBound MainOnMain Complete FailStops NoDead
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
