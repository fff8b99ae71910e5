SPECIFICATION Spec
CONSTANTS Depth = 3
 NPlanes = 4
 Views = {1, 2, 5, 7, 9}
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
