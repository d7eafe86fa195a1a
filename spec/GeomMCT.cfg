SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Emit = FALSE
  CountFrameCopies = TRUE
INVARIANTS Counted MCounted NoDangle Emitted
VIEW View
CHECK_DEADLOCK FALSE
