INIT Init
NEXT Next
INVARIANT Inv
CONSTANT MaxOps = 4
CHECK_DEADLOCK FALSE
