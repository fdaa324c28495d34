CONSTANTS
 Needs <- CallersNeed
 Lock = TRUE
 Start = 0
SPECIFICATION Spec
INVARIANT Right
