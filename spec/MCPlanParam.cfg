SPECIFICATION Spec
CONSTANTS
  SPACE = "param"
  EMIT = TRUE
  D = 2
INVARIANTS Once NoGap InRange Complete Masked Hull Emit
CHECK_DEADLOCK FALSE
