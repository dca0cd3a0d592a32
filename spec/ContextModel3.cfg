INIT Init
NEXT Next
INVARIANT Inv
CONSTANT K = 3
CHECK_DEADLOCK FALSE
