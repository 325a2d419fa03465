INIT Init
NEXT Next
VIEW View
CONSTANTS N = 5
INVARIANTS SetGet AddKeeps Emit
CHECK_DEADLOCK FALSE
