---- MODULE WordsEdge ----
EXTENDS Words
\* all elements with those about the edges, modulo 2003, words of three bits
Elements == 0..(Modulus - 1)
Edges == {0, 1, 7, 8, 63, 64, 511, 512, Modulus - 513, Modulus - 9, Modulus - 8, Modulus - 2, Modulus - 1}
====
