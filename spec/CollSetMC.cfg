SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c", "d"}
 MaxOps = 6
 Emit = FALSE
INVARIANTS NameRefines MatRefines Dangling Emitted
VIEW View
CHECK_DEADLOCK FALSE
