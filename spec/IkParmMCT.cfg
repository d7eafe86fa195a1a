SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
  Emit = FALSE
  BorrowKeepsData = FALSE
INVARIANTS Sound Reads NoLeak Held Emitted
VIEW View
CHECK_DEADLOCK FALSE
