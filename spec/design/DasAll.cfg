CONSTANTS
 K = 2
 Alphabet <- F
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
