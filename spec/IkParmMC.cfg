SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = FALSE
  BorrowKeepsData = FALSE
INVARIANTS Sound Reads NoLeak Held Emitted
VIEW View
CHECK_DEADLOCK FALSE
