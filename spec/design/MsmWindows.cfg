CONSTANTS
 Terms = 2
 Width = 2
 Points <- Some
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
