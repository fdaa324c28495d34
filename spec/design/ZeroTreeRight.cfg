CONSTANTS
 Sizes <- AllSizes
 Ceiled = TRUE
 Own = FALSE
SPECIFICATION Spec
INVARIANTS NeverWrong Complete Within
CHECK_DEADLOCK FALSE
