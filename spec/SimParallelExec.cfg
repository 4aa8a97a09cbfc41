SPECIFICATION FailSpec
CONSTANTS
  K = 3000
  N = 5
  D = 3
  DRAIN = TRUE
  EMIT = TRUE
  ALLOWFAIL = FALSE
CHECK_DEADLOCK FALSE
