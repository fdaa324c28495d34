CONSTANTS
 Needs <- CallersNeed
 Lock = FALSE
 Start = 0
SPECIFICATION Spec
INVARIANT Right
