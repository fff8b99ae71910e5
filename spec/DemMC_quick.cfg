SPECIFICATION Spec
CONSTANTS H = 3 W = 3 Q = 2
INVARIANTS NothingLost Minimal WindowEnough WeightsSum Emit
CHECK_DEADLOCK FALSE
