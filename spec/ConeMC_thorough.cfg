SPECIFICATION Spec
CONSTANTS MaxS = 4
 Levels = {0, 1, 2, 3}
 Ns = {6, 8, 13}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
