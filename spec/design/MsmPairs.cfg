CONSTANTS
 Terms = 2
 Width = 3
 Points <- Some
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
