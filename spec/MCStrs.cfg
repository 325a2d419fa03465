INIT Init
NEXT Next
INVARIANT JoinBack
INVARIANT Suffix
INVARIANT Case
INVARIANT Num
INVARIANT Ident
INVARIANT Emit
CONSTANT N = 4
CHECK_DEADLOCK FALSE
