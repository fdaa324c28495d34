CONSTANTS
 X = 7
 Word = 3
 Width = 3
 Carry = FALSE
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
