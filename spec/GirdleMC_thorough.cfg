SPECIFICATION Spec
CONSTANTS MaxD = 4
 Levels = {0, 1, 2}
 Ns = {2, 3, 5, 12, 13}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
