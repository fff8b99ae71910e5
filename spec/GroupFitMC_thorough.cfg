SPECIFICATION Spec
CONSTANTS Clouds = {1,2,3,4,5}
 Shifts = {1,2,3}
 MaxMembers = 4
 Thin = 5
INVARIANTS ParallelAxis OrderIrrelevant PositionIrrelevant Emit
CHECK_DEADLOCK FALSE
