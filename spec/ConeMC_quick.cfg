SPECIFICATION Spec
CONSTANTS MaxS = 2
 Levels = {0, 1, 2}
 Ns = {8, 13}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
