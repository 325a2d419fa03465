SPECIFICATION Spec
CONSTANT Names = {"A", "B", "C", "D"}
INVARIANTS Short Agrees Order Kinds Derived
PROPERTY Ends
CHECK_DEADLOCK FALSE
