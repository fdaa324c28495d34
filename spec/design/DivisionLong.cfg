CONSTANTS
 Longest = 7
 Dividends <- Two
 Divisors <- Signs
SPECIFICATION Spec
INVARIANTS Tops Whole Precise Reached Same
CHECK_DEADLOCK FALSE
