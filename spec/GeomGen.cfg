SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Emit = TRUE
  CountFrameCopies = TRUE
INVARIANTS Counted MCounted NoDangle Emitted
VIEW View
CHECK_DEADLOCK FALSE
