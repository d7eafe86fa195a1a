SPECIFICATION Spec
CONSTANT B = 2
INVARIANT Exact
CHECK_DEADLOCK FALSE
