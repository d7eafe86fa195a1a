SPECIFICATION Spec
CONSTANTS MaxOps = 7
 Names = {"a", "b", "c", "d"}
 Emit = FALSE
INVARIANTS InitExact OrderOk Emitted
VIEW View
CHECK_DEADLOCK FALSE
