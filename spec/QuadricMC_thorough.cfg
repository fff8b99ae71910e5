SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 5, 9}
 Numbers = {4, 5, 9, 40, 300}
 MaxLevel = 6
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
