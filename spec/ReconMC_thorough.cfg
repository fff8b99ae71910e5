SPECIFICATION Spec
CONSTANTS Strikes = {0,1,15,30,45,60,75,89,90,91,120,135,150,179,180,181,210,225,240,269,270,271,300,315,330,345,359,360}
 Dips = {0,1,10,30,45,60,75,89,90}
 Rakes = {0,1,10,30,45,60,89,90,91,120,135,170,179,180}
 Errors = {1,2,5,20,45,90,150}
 Tick = 11
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
