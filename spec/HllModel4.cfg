CONSTANTS
 Kinds = {"none", "if", "while", "repeat", "for", "switch"}
 MaxMarks = 4
INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Nested
INVARIANT Inv
CHECK_DEADLOCK FALSE
