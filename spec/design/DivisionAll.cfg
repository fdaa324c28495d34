CONSTANTS
 Longest = 3
 Dividends <- All
 Divisors <- Letters
SPECIFICATION Spec
INVARIANTS Tops Whole Precise Reached Same
CHECK_DEADLOCK FALSE
