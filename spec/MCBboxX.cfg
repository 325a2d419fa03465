INIT Init
NEXT Next
INVARIANT Smallest
INVARIANT Aligned
INVARIANT Emit
CONSTANT N = 4
CHECK_DEADLOCK FALSE
