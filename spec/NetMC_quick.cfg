SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Inv Emit
PROPERTY Still
CHECK_DEADLOCK FALSE
