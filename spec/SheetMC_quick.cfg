SPECIFICATION Spec
CONSTANTS Depth = 2
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
