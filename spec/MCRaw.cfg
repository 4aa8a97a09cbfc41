SPECIFICATION Spec
CONSTANT EMIT = TRUE
INVARIANT Total
INVARIANT Same
INVARIANT Bounded
INVARIANT Idle
INVARIANT Emit
CHECK_DEADLOCK FALSE
