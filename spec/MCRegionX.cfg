INIT Init
NEXT Next
CONSTANTS N = 4 MaxPer = 2
INVARIANTS AllGood Emit
CHECK_DEADLOCK FALSE
