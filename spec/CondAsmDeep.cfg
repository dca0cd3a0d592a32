INIT Init
NEXT Next
INVARIANTS Meaning OneBranch Show
CONSTANTS
  MaxLen = 7
  PrintLen = 6
CHECK_DEADLOCK FALSE
