CONSTANT Shape = 2
INIT Init
NEXT Next
INVARIANT Grammar
INVARIANT Laws
INVARIANT Report
CHECK_DEADLOCK FALSE
