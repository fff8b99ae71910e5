SPECIFICATION Spec
CONSTANTS MaxA = 7
 Ms = {1,2,3,5,10}
 Zs = 12
INVARIANTS Inv Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
