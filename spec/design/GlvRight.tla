---- MODULE GlvRight ----
EXTENDS Glv
\* order 2353, four words of three bits, all scalars
====
