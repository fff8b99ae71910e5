SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
