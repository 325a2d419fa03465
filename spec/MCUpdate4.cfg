CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Inv Emit
PROPERTY Safe
CHECK_DEADLOCK FALSE
