SPECIFICATION Spec
CONSTANTS
  MaxToks = 5
  Emit = TRUE
  Newline = TRUE
  Eof = TRUE
INVARIANTS Refines Trailing Whole Emitted
CHECK_DEADLOCK FALSE
