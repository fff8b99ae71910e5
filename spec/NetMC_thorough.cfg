SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Inv Emit
PROPERTY Still
CHECK_DEADLOCK FALSE
