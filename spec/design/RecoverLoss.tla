---- MODULE RecoverLoss ----
EXTENDS Recover
\* eight samples, every loss, coefficients 0 and 1
Two == {0, 1}
====
