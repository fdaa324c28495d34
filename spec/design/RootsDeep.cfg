CONSTANTS
 Size = 7681
 Order = 9
 Cofactor = 15
 Generator = 17
SPECIFICATION Spec
INVARIANTS Kept Falls Root
CHECK_DEADLOCK FALSE
