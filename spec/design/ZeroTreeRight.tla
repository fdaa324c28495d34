---- MODULE ZeroTreeRight ----
EXTENDS ZeroTree
\* as implemented: no wrong result
AllSizes == {128, 256, 512, 1024, 2048, 4096, 8192}
OneSize == {8192}
====
