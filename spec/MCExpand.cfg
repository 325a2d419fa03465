INIT Init
NEXT Next
INVARIANT Independent
CONSTANT N = 4
CHECK_DEADLOCK FALSE
