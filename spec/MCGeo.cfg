INIT Init
NEXT Next
INVARIANT Sym
INVARIANT One
INVARIANT Same
INVARIANT Unit
INVARIANT Tri
INVARIANT Emit
CONSTANT Deg = 30
CHECK_DEADLOCK FALSE
