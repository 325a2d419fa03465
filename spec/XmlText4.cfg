CONSTANTS MaxTokens = 4
 Toks = {1,2,3,4,5,6,7,8,9,11,12,13,19}
INIT Init
NEXT Next
VIEW View
INVARIANTS Readable Emit
CHECK_DEADLOCK FALSE
