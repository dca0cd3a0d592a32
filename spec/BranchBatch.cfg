CONSTANT Range = 128
INIT Init
NEXT Next
INVARIANT Report
INVARIANT Mono
INVARIANT Sound
CHECK_DEADLOCK FALSE
