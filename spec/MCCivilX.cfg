SPECIFICATION Spec
CONSTANTS From0 = 1500 To = 2500
INVARIANTS Epoch
PROPERTIES Steps
CHECK_DEADLOCK FALSE
