SPECIFICATION Spec
CONSTANTS MaxH = 6
 MaxOps = 7
 NData = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
