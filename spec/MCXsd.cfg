SPECIFICATION Spec
CONSTANT Names = {"A", "B", "C"}
INVARIANTS Short Agrees Order Kinds Derived
PROPERTY Ends
CHECK_DEADLOCK FALSE
