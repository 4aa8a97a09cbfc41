SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
CRASHES = 2
ORDER <- OrderEarly
INVARIANTS Whole WholeAlways Done Ready
