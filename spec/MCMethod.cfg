SPECIFICATION Spec
CONSTANT EMIT = TRUE
INVARIANT Once
INVARIANT BaseFirst
INVARIANT KeepsOrder
INVARIANT Precedence
INVARIANT Valued
INVARIANT Emit
CHECK_DEADLOCK FALSE
