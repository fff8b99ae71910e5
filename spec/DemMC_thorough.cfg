SPECIFICATION Spec
CONSTANTS H = 3 W = 4 Q = 4
INVARIANTS NothingLost Minimal WindowEnough WeightsSum Emit
CHECK_DEADLOCK FALSE
