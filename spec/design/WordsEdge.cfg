CONSTANTS
 Word = 3
 Modulus = 2003
 Left <- Elements
 Right <- Edges
SPECIFICATION Spec
INVARIANTS Fits Carries Schoolbook Cleared Result
CHECK_DEADLOCK FALSE
