SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS N = 3
M = 2
WS = {0, 2, 4}
INVARIANTS Right Early AsSlices Joined
