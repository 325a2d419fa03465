CONSTANTS MaxTuples = 1
 Nums = {2,3,5,6,7,9,11}
 Seps = {1}
INIT Init
NEXT Next
INVARIANTS Counts Exact Inverts Emit
CHECK_DEADLOCK FALSE
