CONSTANTS
 K = 3
 Alphabet <- Two
 Inverse = TRUE
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
