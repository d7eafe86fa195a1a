SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  MaxOps = 8
  Emit = FALSE
  Strict = TRUE
INVARIANTS Pos FixIsVecs HeapIsLoop RoundTrip Emitted
VIEW V
CHECK_DEADLOCK FALSE
