---- MODULE DivisionLong ----
EXTENDS Division
\* up to seven coefficients, two letters each
Two == {0, 1}
Signs == {1, 3}
====
