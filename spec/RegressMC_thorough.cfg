SPECIFICATION Spec
CONSTANTS K = 3
 NPts = 5
 MaxQ = 6
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
