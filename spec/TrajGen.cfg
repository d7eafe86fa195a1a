SPECIFICATION Spec
CONSTANTS
  NS = 4
  MaxOps = 3
  Emit = TRUE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
