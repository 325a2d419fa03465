SPECIFICATION Spec
CONSTANTS From0 = 1890 To = 2110
INVARIANTS Epoch
PROPERTIES Steps
CHECK_DEADLOCK FALSE
