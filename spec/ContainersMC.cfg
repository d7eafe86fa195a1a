SPECIFICATION Spec
CONSTANTS MaxOps = 7
 MaxVal = 9
 Emit = FALSE
INVARIANTS ListRefines TailOk PoolSafe Emitted
VIEW View
CHECK_DEADLOCK FALSE
