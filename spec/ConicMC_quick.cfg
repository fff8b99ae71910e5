SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
