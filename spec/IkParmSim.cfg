SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
  Emit = TRUE
  BorrowKeepsData = FALSE
INVARIANTS Sound Reads NoLeak Held Emitted
VIEW View
CHECK_DEADLOCK FALSE
