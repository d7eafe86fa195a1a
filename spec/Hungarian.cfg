SPECIFICATION Spec
CONSTANTS N = 3
 Costs = {0, 1, 3}
 Shift = 1
INVARIANTS Independent ZeroStars NonNeg Optimal Terminates
CHECK_DEADLOCK FALSE
