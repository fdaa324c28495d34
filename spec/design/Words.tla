------------------------------- MODULE Words -------------------------------
(* Multiplication of field elements by words as implemented (properties C01 and C03), with four words of Word bits: rows of
   the schoolbook product, then one round of reduction for every word, then one subtraction of the modulus.  An element x
   is kept as x * Radix modulo the modulus.  The carry out of the highest word is dropped, which is right as long as
   twice the modulus fits in the words. *)
EXTENDS Integers

CONSTANTS Word, Modulus, Left, Right

Base == 2^Word
Radix == Base^4
(* minus the inverse of the modulus, modulo the size of a word *)
Inverse == CHOOSE k \in 0..(Base - 1) : (k * Modulus + 1) % Base = 0
At(x, i) == (x \div Base^i) % Base

VARIABLES x, y, r, carry, round
vars == <<x, y, r, carry, round>>
Init == /\ x \in Left /\ y \in Right
        /\ r = [i \in 0..7 |-> 0] /\ carry = 0 /\ round = 0

RECURSIVE Value(_, _)
Value(w, n) == IF n = 0 THEN 0 ELSE w[n - 1] * Base^(n - 1) + Value(w, n - 1)

(* w + k * v at place i: four words multiplied and added with their carries; the last carry is returned *)
RECURSIVE Row(_, _, _, _, _, _)
Row(w, i, k, v, j, c) ==
  IF j = 4 THEN <<w, c>>
  ELSE LET s == w[i + j] + k * At(v, j) + c
       IN Row([w EXCEPT ![i + j] = s % Base], i, k, v, j + 1, s \div Base)

Multiply == /\ round < 4
            /\ LET t == Row(r, round, At(x, round), y, 0, 0)
               IN r' = [t[1] EXCEPT ![round + 4] = t[2]]
            /\ round' = round + 1
            /\ UNCHANGED <<x, y, carry>>
Reduce == /\ round >= 4 /\ round < 8
          /\ LET i == round - 4
                 t == Row(r, i, (r[i] * Inverse) % Base, Modulus, 0, 0)
                 s == r[i + 4] + carry + t[2]
             IN /\ r' = [t[1] EXCEPT ![i + 4] = s % Base]
                /\ carry' = s \div Base
          /\ round' = round + 1
          /\ UNCHANGED <<x, y>>
(* the modulus is taken away, and put back if there was a borrow *)
Subtract == /\ round = 8
            /\ LET v == Value([i \in 0..3 |-> r[i + 4]], 4)
                   d == IF v < Modulus THEN v ELSE v - Modulus
               IN r' = [i \in 0..7 |-> IF i < 4 THEN 0 ELSE At(d, i - 4)]
            /\ round' = 9
            /\ UNCHANGED <<x, y, carry>>
Next == Multiply \/ Reduce \/ Subtract
Spec == Init /\ [][Next]_vars

Fits == \A i \in 0..7 : r[i] \in 0..(Base - 1)
Carries == carry \in 0..(Base - 1)
Schoolbook == round <= 4 => Value(r, 8) = (x % Base^round) * y
(* every round clears a word and keeps the class *)
Cleared == round \in 4..8 => /\ \A i \in 0..(round - 5) : r[i] = 0
                             /\ (Value(r, 8) + carry * Base^round - x * y) % Modulus = 0
Result == round = 9 => LET v == Value(r, 8) \div Radix IN v < Modulus /\ (v * Radix - x * y) % Modulus = 0
=============================================================================
