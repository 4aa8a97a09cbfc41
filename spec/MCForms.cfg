SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
STEPS = 2
NUMS = {2}
INVARIANTS SameMeaning
