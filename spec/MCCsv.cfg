SPECIFICATION Spec
CONSTANTS Max = 5
INVARIANTS RoundTrip NoEol Count Emit
CHECK_DEADLOCK FALSE
