CONSTANTS N = 3
 Caps = {1, 2}
INIT Init
NEXT Next
VIEW View
INVARIANTS Inv Emit
PROPERTY Again
CHECK_DEADLOCK FALSE
