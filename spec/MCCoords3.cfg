CONSTANTS MaxTuples = 3
 Nums = {1,2}
 Seps = {1,7}
INIT Init
NEXT Next
INVARIANTS Counts Exact Inverts Emit
CHECK_DEADLOCK FALSE
