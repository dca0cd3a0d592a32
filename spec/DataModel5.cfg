INIT Init
NEXT Next
INVARIANT Inv
CONSTANT MaxOps = 5
CHECK_DEADLOCK FALSE
