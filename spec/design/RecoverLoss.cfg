CONSTANTS
 N = 8
 Alphabet <- Two
SPECIFICATION Spec
INVARIANTS Vanishes NeverByZero Recovered
CHECK_DEADLOCK FALSE
