SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
NB = 3
NS = 2
WIDE = FALSE
INVARIANTS Result Once Whole Bound Refuse
