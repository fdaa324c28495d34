CONSTANTS
 Word = 2
 Modulus = 251
 Left <- Elements
 Right <- Edges
SPECIFICATION Spec
INVARIANTS Result
CHECK_DEADLOCK FALSE
