SPECIFICATION Spec
CONSTANTS K = 2
 NPts = 5
 MaxQ = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
