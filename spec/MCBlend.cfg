SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  Vals = {0, 1, 4}
INVARIANTS Accepted Idempotent Unchanged InHull Symmetric Emit
CHECK_DEADLOCK FALSE
