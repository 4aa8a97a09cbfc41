SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS EMIT = FALSE
WIDE = FALSE
INVARIANTS Fine Ends Bounded Largest
