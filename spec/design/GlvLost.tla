---- MODULE GlvLost ----
EXTENDS Glv
\* the carry of the rounding is lost: some products are wrong
====
