SPECIFICATION Spec
CONSTANTS
  Sizes = {1, 2, 3, 8, 9}
  TmpSizes = {4, 10}
  InitSize = 8
  MaxOps = 6
  Emit = FALSE
INVARIANTS LiveSafe NoOverlap HeadClear
VIEW View
CHECK_DEADLOCK FALSE
