---- MODULE Fk20Right ----
EXTENDS Fk20
\* four coefficients, chunks of one, two and four
Sizes == {1, 2, 4}
====
