CONSTANTS
 MaxLen = 8
 Grouped = 1
INIT Init
NEXT Next
INVARIANT NoErr
INVARIANT Meaning
INVARIANT Report
CHECK_DEADLOCK FALSE
