SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Emit = TRUE
  Sync = TRUE
  Forget = TRUE
INVARIANT Emitted
CHECK_DEADLOCK FALSE
