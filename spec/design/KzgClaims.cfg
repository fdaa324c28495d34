CONSTANTS
 Length = 3
 Alphabet <- Two
SPECIFICATION Spec
INVARIANTS Complete Unique Sound SoundOne
CHECK_DEADLOCK FALSE
