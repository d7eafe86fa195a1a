SPECIFICATION Spec
CONSTANTS
  MaxDepth = 3
  MaxTop = 4
  PopOnError = TRUE
  FreeOnError = TRUE
INVARIANTS Rest End Owned
CHECK_DEADLOCK FALSE
