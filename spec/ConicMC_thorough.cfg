SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
