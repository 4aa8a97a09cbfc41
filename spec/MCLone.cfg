SPECIFICATION Spec
INVARIANT Consistent
INVARIANT Usable
INVARIANT Emit
CHECK_DEADLOCK FALSE
