SPECIFICATION Spec
CONSTANTS
  N = 3
  EMIT = TRUE
INVARIANTS OnlyNeeded DepsBefore NothingLost CleanEnd NotStuck
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
