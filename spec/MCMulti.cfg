SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = TRUE
CRASHES = 2
ORDER <- OrderGood
INVARIANTS Whole WholeAlways Done Ready Emit
