CONSTANTS
 Range = 4
 MaxItems = 5
 Fills = {1, 3}
 Labels = {1, 2}
INIT Init
NEXT Next
INVARIANT Below
INVARIANT Final
CHECK_DEADLOCK FALSE
