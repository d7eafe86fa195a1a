SPECIFICATION Spec
CONSTANTS
  MaxLines = 6
  MaxOps = 11
  Emit = TRUE
  Strict = TRUE
INVARIANTS Pos FixIsVecs HeapIsLoop RoundTrip Emitted
CHECK_DEADLOCK FALSE
