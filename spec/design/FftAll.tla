---- MODULE FftAll ----
EXTENDS Fft
\* every vector of four field elements
====
