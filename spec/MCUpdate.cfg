CONSTANT N = 3
INIT Init
NEXT Next
INVARIANTS Inv Emit
PROPERTY Safe
CHECK_DEADLOCK FALSE
