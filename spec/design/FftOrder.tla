---- MODULE FftOrder ----
EXTENDS Fft
\* eight places, two letters, all interleavings
Two == {0, 1}
====
