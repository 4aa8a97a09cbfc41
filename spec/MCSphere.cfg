SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  Angles = {0, 1, 2, 30, 60, 90, 126, 150, 178, 179, 180}
  Lengths = {0, 1, 3}
INVARIANTS Circle Start End OnCircle Reverse Mid Emit
CHECK_DEADLOCK FALSE
