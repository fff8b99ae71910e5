SPECIFICATION Spec
CONSTANTS Coord = {0, 1, 2}
 MinN = 3
 MaxN = 3
 Every = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
