SPECIFICATION Spec
CONSTANTS Coord = {0, 1, 2}
 MinN = 3
 MaxN = 4
 Every = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
