---- MODULE Fk20Eight ----
EXTENDS Fk20
\* eight coefficients of 0 and 1, all chunks
Sizes == {1, 2, 4, 8}
Two == {0, 1}
====
