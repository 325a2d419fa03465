INIT Init
NEXT Next
VIEW View
CONSTANTS N = 4
INVARIANTS ReadsBack Emit
CHECK_DEADLOCK FALSE
