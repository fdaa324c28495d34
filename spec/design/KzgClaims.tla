---- MODULE KzgClaims ----
EXTENDS Kzg
\* three coefficients, every secret and every claim
Two == {0, 1}
====
