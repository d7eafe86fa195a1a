SPECIFICATION Spec
CONSTANTS MaxOps = 14
 Names = {"a", "b", "c", "d"}
 Emit = TRUE
INVARIANTS InitExact OrderOk Emitted
VIEW View
CHECK_DEADLOCK FALSE
