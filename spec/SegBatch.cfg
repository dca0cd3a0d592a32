INIT Init
NEXT Next
INVARIANT Report
INVARIANT Meaning
CHECK_DEADLOCK FALSE
