CONSTANTS
 Sizes <- OneSize
 Ceiled = FALSE
 Own = TRUE
SPECIFICATION Spec
INVARIANTS NeverWrong Complete Within NeverRefused
CHECK_DEADLOCK FALSE
