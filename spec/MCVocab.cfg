SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  Toks = {"a", "b"}
INVARIANTS Distinct FullIsOK OwnKept Defaults ForceUniform Padded Emit
CHECK_DEADLOCK FALSE
