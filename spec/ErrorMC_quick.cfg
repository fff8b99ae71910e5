SPECIFICATION Spec
CONSTANTS MaxA = 4
 Ms = {1,2,3,7}
 Zs = 6
INVARIANTS Inv Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
