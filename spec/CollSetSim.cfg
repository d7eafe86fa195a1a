SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c", "d"}
 MaxOps = 10
 Emit = TRUE
INVARIANTS NameRefines MatRefines Dangling Emitted
VIEW View
CHECK_DEADLOCK FALSE
