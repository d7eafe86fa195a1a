SPECIFICATION Spec
CONSTANT MaxDim = 4
INVARIANTS RowCol BlockAt PutGet SliceAt
CHECK_DEADLOCK FALSE
