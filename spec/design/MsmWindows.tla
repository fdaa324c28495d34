---- MODULE MsmWindows ----
EXTENDS Msm
\* two terms, all scalars, three windows
Some == {0, 1, 5}
====
