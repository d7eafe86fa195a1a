SPECIFICATION Spec
CONSTANTS
  MaxOps = 9
  Emit = FALSE
  Sync = TRUE
  Forget = TRUE
INVARIANT Current
INVARIANT Synced
VIEW View
CHECK_DEADLOCK FALSE
