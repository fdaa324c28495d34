CONSTANTS
 Made = 4
 Given = 4
 Chunks <- Sizes
 Alphabet <- Letters
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
