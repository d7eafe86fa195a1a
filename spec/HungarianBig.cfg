SPECIFICATION Spec
CONSTANTS N = 3
 Costs = {0, 2, 3, 5}
 Shift = 3
INVARIANTS Independent ZeroStars NonNeg Optimal Terminates
CHECK_DEADLOCK FALSE
