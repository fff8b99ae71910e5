SPECIFICATION Spec
CONSTANTS K = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
