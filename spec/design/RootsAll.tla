---- MODULE RootsAll ----
EXTENDS Roots
\* the field of 193 elements, of which 64 are roots of unity of order 64

====
