SPECIFICATION Spec
CONSTANTS K = 2
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
