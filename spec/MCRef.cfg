SPECIFICATION Spec
CONSTANT EMIT = TRUE
CONSTANT MAX = 2
INVARIANT RoundTrip
INVARIANT Stable
INVARIANT Simple
INVARIANT Emit
CHECK_DEADLOCK FALSE
