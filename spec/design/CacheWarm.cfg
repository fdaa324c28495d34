CONSTANTS
 Needs <- CallersNeed
 Lock = FALSE
 Start = 4
SPECIFICATION Spec
INVARIANT Right
