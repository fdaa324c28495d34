---- MODULE GlvWide ----
EXTENDS Glv
\* order 28393, four words of four bits and the width in use, all scalars
====
