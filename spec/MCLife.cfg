CONSTANT N = 5
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Emit
PROPERTIES GoneForGood
CHECK_DEADLOCK FALSE
