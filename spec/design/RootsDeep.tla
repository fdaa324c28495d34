---- MODULE RootsDeep ----
EXTENDS Roots
\* the field of 7681 elements, with roots of unity of order 512

====
