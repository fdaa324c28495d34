CONSTANTS
 K = 2
 Alphabet <- F
 Inverse = FALSE
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
