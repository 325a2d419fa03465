INIT Init
NEXT Next
VIEW View
CONSTANTS N = 4
INVARIANTS SetGet AddKeeps Emit
CHECK_DEADLOCK FALSE
