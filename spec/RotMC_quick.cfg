SPECIFICATION Spec
CONSTANTS K = 1
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
