CONSTANTS MaxTokens = 3
 Toks = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}
INIT Init
NEXT Next
VIEW View
INVARIANTS Readable Emit
CHECK_DEADLOCK FALSE
