INIT Init
NEXT Next
CONSTANTS N = 3
INVARIANTS ReadsLast WritesSet Emit
CHECK_DEADLOCK FALSE
