SPECIFICATION Spec
CONSTANT B = 1
INVARIANT Exact
CHECK_DEADLOCK FALSE
