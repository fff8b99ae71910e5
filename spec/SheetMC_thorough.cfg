SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
