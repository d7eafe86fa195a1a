SPECIFICATION Spec
CONSTANTS MaxOps = 5
 MaxVal = 9
 Emit = TRUE
INVARIANTS ListRefines TailOk PoolSafe Emitted
VIEW View
CHECK_DEADLOCK FALSE
