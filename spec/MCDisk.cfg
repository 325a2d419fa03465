SPECIFICATION Spec
CONSTANTS MaxLen = 6
BufSize = 2
Checked = TRUE
INVARIANTS Honest Prefix Paths
PROPERTY Ends
CHECK_DEADLOCK FALSE
