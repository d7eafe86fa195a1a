SPECIFICATION Spec
CONSTANTS
  NS = 4
  MaxOps = 6
  Emit = FALSE
INVARIANT Stateless
INVARIANT Correct
VIEW View
CHECK_DEADLOCK FALSE
