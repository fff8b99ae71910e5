SPECIFICATION Spec
CONSTANTS Clouds = {1,2,3,4,5}
 Shifts = {1,2,3}
 MaxMembers = 3
 Thin = 6
INVARIANTS ParallelAxis OrderIrrelevant PositionIrrelevant Emit
CHECK_DEADLOCK FALSE
