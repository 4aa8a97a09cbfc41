SPECIFICATION Spec
CONSTANTS
  T = 2
  PER = 2
  Sizes = {1, 3}
  Maxes = {0, 2, 4}
  CLEAN = TRUE
  EARLYINDEX = FALSE
INVARIANTS CrashConsistent CrashWhileOpen Exact ErrorsSurface ShardLimit NoLeftovers Progresses
CHECK_DEADLOCK FALSE
