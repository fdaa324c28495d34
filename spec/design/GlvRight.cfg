CONSTANTS
 X = 7
 Word = 3
 Width = 3
 Carry = TRUE
SPECIFICATION Spec
INVARIANTS Short Table Right
CHECK_DEADLOCK FALSE
