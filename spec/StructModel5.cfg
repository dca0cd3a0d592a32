INIT Init
NEXT Next
INVARIANT Inv
CONSTANT K = 5
CHECK_DEADLOCK FALSE
