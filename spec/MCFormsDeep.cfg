SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
STEPS = 3
NUMS = {}
INVARIANTS SameMeaning
