SPECIFICATION Spec
CONSTANTS
  B = 40
  Base = 5
INVARIANTS Carry Order
CHECK_DEADLOCK FALSE
