SPECIFICATION Spec
CONSTANTS
  MaxToks = 6
  Emit = FALSE
  Newline = TRUE
  Eof = TRUE
INVARIANTS Refines Trailing Whole Emitted
CHECK_DEADLOCK FALSE
