CONSTANT Shape = 5
INIT Init
NEXT Next
INVARIANT Grammar
INVARIANT Laws
INVARIANT Report
CHECK_DEADLOCK FALSE
