SPECIFICATION Spec
CONSTANTS
  SPACE = "layout"
  EMIT = TRUE
  D = 2
INVARIANTS Once NoGap InRange Complete Emit
CHECK_DEADLOCK FALSE
