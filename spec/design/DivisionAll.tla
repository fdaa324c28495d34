---- MODULE DivisionAll ----
EXTENDS Division
\* up to three coefficients, all of them
All == F
====
