INIT Init
NEXT Next
VIEW View
CONSTANTS N = 4
INVARIANTS SplitExact MergeWins Emit
CHECK_DEADLOCK FALSE
