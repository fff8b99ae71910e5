SPECIFICATION Spec
CONSTANTS Frames = {1,2,3,4,5,6,7,8,9}
 Svs = {1,2,3,4,5}
 Queries = {"U", "errors", "residuals", "hash", "mapping", "rotated"}
 MaxSteps = 6
INVARIANTS Inv Emit
PROPERTY SvKept
CHECK_DEADLOCK FALSE
