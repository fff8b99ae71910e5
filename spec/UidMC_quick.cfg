SPECIFICATION Spec
CONSTANTS Contents = {2,3,4,5,6,7,8,9}
 Ops = {"query","disable","group","refit","copy","mapping","errors","method"}
 MaxOps = 3
INVARIANTS Stable Distinct Emit
CHECK_DEADLOCK FALSE
