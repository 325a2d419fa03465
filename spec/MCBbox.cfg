INIT Init
NEXT Next
INVARIANT Smallest
INVARIANT Aligned
INVARIANT Emit
CONSTANT N = 3
CHECK_DEADLOCK FALSE
