CONSTANT Max = 4500
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
