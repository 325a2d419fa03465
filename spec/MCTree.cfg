CONSTANT N = 4
SPECIFICATION Spec
VIEW View
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
