SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  Formats = {"float16", "bfloat16", "float32"}
  Xs <- MCXs
INVARIANTS Idem Mono Odd HalfUlp Copy Fits Once Emit
CHECK_DEADLOCK FALSE
