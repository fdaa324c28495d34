---- MODULE WordsTight ----
EXTENDS Words
\* the modulus nearly fills the words: the dropped carry makes some products wrong
Elements == 0..(Modulus - 1)
Edges == {Modulus - 3, Modulus - 2, Modulus - 1}
====
