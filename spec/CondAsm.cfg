INIT Init
NEXT Next
INVARIANTS Meaning OneBranch Show
CONSTANTS
  MaxLen = 6
  PrintLen = 5
CHECK_DEADLOCK FALSE
