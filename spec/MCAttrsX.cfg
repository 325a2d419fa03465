INIT Init
NEXT Next
VIEW View
CONSTANTS N = 6
INVARIANTS SplitExact MergeWins Emit
CHECK_DEADLOCK FALSE
