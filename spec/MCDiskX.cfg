SPECIFICATION Spec
CONSTANTS MaxLen = 16
BufSize = 3
Checked = TRUE
INVARIANTS Honest Prefix Paths
PROPERTY Ends
CHECK_DEADLOCK FALSE
