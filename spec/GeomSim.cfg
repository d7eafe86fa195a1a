SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Emit = TRUE
  CountFrameCopies = TRUE
INVARIANTS Counted MCounted NoDangle Emitted
VIEW View
CHECK_DEADLOCK FALSE
