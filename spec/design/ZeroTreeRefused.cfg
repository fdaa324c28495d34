CONSTANTS
 Sizes <- OneSize
 Ceiled = TRUE
 Own = FALSE
SPECIFICATION Spec
INVARIANTS NeverRefused
CHECK_DEADLOCK FALSE
