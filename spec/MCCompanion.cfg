SPECIFICATION Spec
CONSTANT EMIT = TRUE
INVARIANT Origin
INVARIANT Definite
INVARIANT Unique
INVARIANT Majority
INVARIANT Apart
INVARIANT Emit
CHECK_DEADLOCK FALSE
