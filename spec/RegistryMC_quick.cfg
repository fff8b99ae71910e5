SPECIFICATION Spec
CONSTANTS NPlanes = 4
 MaxGroups = 3
 MaxOps = 3
 Deep = 0
 Thin = 3
INVARIANTS Inv FaultsAgree
PROPERTIES NothingLost Mended
ACTION_CONSTRAINT EmitStep
VIEW Abstract
CHECK_DEADLOCK FALSE
