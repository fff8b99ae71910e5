SPECIFICATION Spec
CONSTANTS Depth = 4
 Sets = {1, 2, 3}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
