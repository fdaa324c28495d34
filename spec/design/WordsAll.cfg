CONSTANTS
 Word = 2
 Modulus = 113
 Left <- Elements
 Right <- Elements
SPECIFICATION Spec
INVARIANTS Fits Carries Schoolbook Cleared Result
CHECK_DEADLOCK FALSE
