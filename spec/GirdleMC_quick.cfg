SPECIFICATION Spec
CONSTANTS MaxD = 2
 Levels = {0, 1, 2}
 Ns = {5, 7}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
