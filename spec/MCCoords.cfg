CONSTANTS MaxTuples = 2
 Nums = {2,3}
 Seps = {1,2,3,4,5,7}
INIT Init
NEXT Next
INVARIANTS Counts Exact Inverts Emit
CHECK_DEADLOCK FALSE
