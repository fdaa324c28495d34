---- MODULE DasAll ----
EXTENDS Das
\* every vector of four field elements
====
