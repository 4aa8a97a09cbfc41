SPECIFICATION Spec
CONSTANT EMIT = TRUE
INVARIANT Total
INVARIANT Honoured
INVARIANT Prefer
INVARIANT Attention
INVARIANT Emit
CHECK_DEADLOCK FALSE
