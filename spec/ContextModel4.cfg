INIT Init
NEXT Next
INVARIANT Inv
CONSTANT K = 4
CHECK_DEADLOCK FALSE
