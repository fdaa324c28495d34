CONSTANTS
 N = 4
 Alphabet <- F
SPECIFICATION Spec
INVARIANTS Vanishes NeverByZero Recovered
CHECK_DEADLOCK FALSE
