CONSTANTS
 Size = 193
 Order = 6
 Cofactor = 3
 Generator = 5
SPECIFICATION Spec
INVARIANTS Kept Falls Root
CHECK_DEADLOCK FALSE
