SPECIFICATION Spec
CONSTANTS Max = 7
INVARIANTS RoundTrip NoEol Count Emit
CHECK_DEADLOCK FALSE
