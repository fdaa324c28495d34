---- MODULE DasOrder ----
EXTENDS Das
\* eight places, two letters, all interleavings
Two == {0, 1}
====
