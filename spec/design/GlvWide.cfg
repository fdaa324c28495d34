CONSTANTS
 X = 13
 Word = 4
 Width = 5
 Carry = TRUE
SPECIFICATION Spec
INVARIANTS Short Table Right
CHECK_DEADLOCK FALSE
