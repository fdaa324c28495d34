---- MODULE WordsAll ----
EXTENDS Words
\* all pairs modulo 113, words of two bits
Elements == 0..(Modulus - 1)
====
