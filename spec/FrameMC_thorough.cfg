SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
