SPECIFICATION Spec
CONSTANTS Depth = 4
 NPlanes = 4
 Views = {1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
