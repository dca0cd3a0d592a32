INIT Init
NEXT Next
INVARIANT Inv
CONSTANT K = 6
CHECK_DEADLOCK FALSE
