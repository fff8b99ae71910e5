SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 4}
 Numbers = {4, 9, 40}
 MaxLevel = 3
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
