CONSTANTS
 K = 3
 Alphabet <- Two
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
