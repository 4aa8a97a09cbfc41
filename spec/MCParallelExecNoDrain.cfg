SPECIFICATION Spec
CONSTANTS
  K = 0
  N = 3
  D = 2
  DRAIN = FALSE
  EMIT = FALSE
  ALLOWFAIL = TRUE
INVARIANTS Once DupBound MainOnMain Complete FailStops NoDead
CHECK_DEADLOCK FALSE
