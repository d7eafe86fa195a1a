SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Calls = 2
  Vals = {0, 1}
  InitBeforeUse = TRUE
  PrivateScratch = TRUE
INVARIANT AsAlone
CHECK_DEADLOCK FALSE
