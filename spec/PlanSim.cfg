SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Emit = TRUE
  Sync = TRUE
  Forget = TRUE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
