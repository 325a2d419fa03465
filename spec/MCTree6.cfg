CONSTANT N = 6
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
