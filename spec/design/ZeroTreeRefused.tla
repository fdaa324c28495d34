---- MODULE ZeroTreeRefused ----
EXTENDS ZeroTree
\* as implemented: some are refused (known finding)
AllSizes == {128, 256, 512, 1024, 2048, 4096, 8192}
OneSize == {8192}
====
