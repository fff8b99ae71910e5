SPECIFICATION Spec
CONSTANTS Frames = {1,2,3,4,6,8,9}
 Svs = {1,2,3}
 Queries = {"U", "errors", "residuals", "hash"}
 MaxSteps = 5
INVARIANTS Inv Emit
PROPERTY SvKept
CHECK_DEADLOCK FALSE
