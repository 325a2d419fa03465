CONSTANT N = 7
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Emit
PROPERTIES GoneForGood
CHECK_DEADLOCK FALSE
