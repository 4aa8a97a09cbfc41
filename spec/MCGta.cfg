SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  Vals = {0, 2, 5}
  Lens = {2}
INVARIANTS Untouched Share Ranked Elected Mass Same Accepts Emit
CHECK_DEADLOCK FALSE
