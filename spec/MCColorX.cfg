INIT Init
NEXT Next
VIEW View
CONSTANTS N = 6
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
