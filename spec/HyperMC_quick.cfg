SPECIFICATION Spec
CONSTANTS MaxH = 3
 MaxOps = 6
 NData = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
