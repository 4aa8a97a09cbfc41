SPECIFICATION Spec
CONSTANTS
  EMIT = TRUE
  MaxAlias = 1
  MaxTied = 2
  NModels = 2
INVARIANTS Priority GiversHave AllGive Distinct Emit
PROPERTIES Monotone GrowPlan
CHECK_DEADLOCK FALSE
