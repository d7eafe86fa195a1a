SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Names = {"a", "b"}
 Emit = TRUE
INVARIANTS InitExact OrderOk Emitted
VIEW View
CHECK_DEADLOCK FALSE
