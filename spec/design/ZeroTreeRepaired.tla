---- MODULE ZeroTreeRepaired ----
EXTENDS ZeroTree
\* with the repairs nothing is refused
AllSizes == {128, 256, 512, 1024, 2048, 4096, 8192}
OneSize == {8192}
====
