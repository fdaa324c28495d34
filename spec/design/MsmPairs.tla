---- MODULE MsmPairs ----
EXTENDS Msm
\* two terms, all scalars, two windows
Some == {0, 1, 5, 16}
====
