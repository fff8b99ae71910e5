SPECIFICATION Spec
CONSTANTS Strikes = {0, 30, 45, 90, 135, 180, 210, 225, 270, 315, 359, 360}
 Dips = {0, 1, 30, 45, 60, 89, 90}
 Rakes = {0, 10, 45, 90, 135, 170, 180}
 Errors = {1, 5, 20, 90}
 Tick = 7
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
