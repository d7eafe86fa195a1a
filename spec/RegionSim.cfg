SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 8, 9}
  TmpSizes = {4, 10}
  InitSize = 8
  MaxOps = 14
  Emit = TRUE
INVARIANTS LiveSafe NoOverlap HeadClear Emitted
VIEW View
CHECK_DEADLOCK FALSE
