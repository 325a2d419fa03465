INIT Init
NEXT Next
CONSTANTS N = 3 MaxPer = 2
INVARIANTS AllGood Emit
CHECK_DEADLOCK FALSE
