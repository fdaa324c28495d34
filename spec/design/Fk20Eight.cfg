CONSTANTS
 Made = 8
 Given = 8
 Chunks <- Sizes
 Alphabet <- Two
SPECIFICATION Spec
INVARIANTS Right
CHECK_DEADLOCK FALSE
