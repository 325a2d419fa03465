CONSTANTS
 N = 8
 Urls = {"a", "b", "c"}
 Caps = {0, 1, 2, 3}
INIT Init
NEXT Next
VIEW View
INVARIANTS Inv Emit
PROPERTY Calm
CHECK_DEADLOCK FALSE
