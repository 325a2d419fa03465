INIT Init
NEXT Next
CONSTANTS N = 4
INVARIANTS ReadsLast WritesSet Emit
CHECK_DEADLOCK FALSE
