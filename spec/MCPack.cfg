CONSTANT N = 4
INIT Init
NEXT Next
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
