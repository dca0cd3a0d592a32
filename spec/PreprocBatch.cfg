CONSTANT Fuel = 3000
INIT Init
NEXT Next
INVARIANT Report
INVARIANT StackOK
CHECK_DEADLOCK FALSE
