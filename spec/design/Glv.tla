-------------------------------- MODULE Glv --------------------------------
(* Multiplication in the first group by splitting the scalar, as implemented (properties C04 and C31), with a smaller
   parameter.  The order is X^4 - X^2 + 1 and the endomorphism multiplies by X^2 - 1.  A scalar has four words of Word
   bits.  The second half is the scalar times a constant, rounded at the fourth word; the first half is what is left
   and may be negative.  Both are made odd, recoded in odd digits of Width bits, summed from the highest digit down, and
   corrected at the end.  With Carry = FALSE the carry of the rounding is lost, which is known finding K8. *)
EXTENDS Integers, Sequences

CONSTANTS X, Word, Width, Carry

Order == X^4 - X^2 + 1
Lambda == X^2 - 1
Base == 2^Word
All == Base^4
Half == 2 * Word
Factor == (2 * All + Lambda) \div (2 * Lambda)
Length == 2 + ((Half - 1) \div (Width - 1))
ASSUME Order < All /\ Lambda < Base^2 /\ Width > 1

VARIABLES scalar, stage, first, second, minus, rest, digits, at, acc
vars == <<scalar, stage, first, second, minus, rest, digits, at, acc>>

Init == /\ scalar \in 0..(Order - 1)
        /\ stage = "split" /\ first = 0 /\ second = 0 /\ minus = FALSE
        /\ rest = <<0, 0>> /\ digits = <<<<>>, <<>>>> /\ at = 0 /\ acc = 0

Odd(x) == x + (1 - (x % 2))
(* the word above the place of rounding takes the carry, and the next one too unless it is lost *)
Rounded == LET b == scalar * Factor
               low == (b \div All) % Base
               up == (b \div (All \div 2)) % 2
           IN IF Carry THEN (b \div All) + up
              ELSE (b \div All) - low + ((low + up) % Base)

Split == /\ stage = "split"
         /\ LET s == Rounded
                f == scalar - s * Lambda
            IN /\ second' = s /\ minus' = (f < 0)
               /\ first' = IF f < 0 THEN 0 - f ELSE f
               /\ rest' = <<Odd(first'), Odd(s)>>
         /\ stage' = "recode"
         /\ UNCHANGED <<scalar, digits, at, acc>>

(* one digit of either half *)
Recode == /\ stage = "recode"
          /\ LET Digit(h) == IF at < Length - 1 THEN (rest[h] % 2^Width) - 2^(Width - 1) ELSE rest[h] % 2^Width
             IN /\ digits' = <<Append(digits[1], Digit(1)), Append(digits[2], Digit(2))>>
                /\ rest' = [h \in 1..2 |-> IF at < Length - 1 THEN (rest[h] - Digit(h)) \div 2^(Width - 1) ELSE rest[h] - Digit(h)]
          /\ at' = at + 1
          /\ stage' = IF at + 1 = Length THEN "add" ELSE "recode"
          /\ UNCHANGED <<scalar, first, second, minus, acc>>

Sign == IF minus THEN 0 - 1 ELSE 1
Size(d) == IF d < 0 THEN 0 - d ELSE d
(* the table holds the odd multiples below 2^(Width - 1); the identity is found for any other *)
Entry(d) == IF Size(d) < 2^(Width - 1) THEN d ELSE 0
Sum == /\ stage = "add" /\ at > 0
       /\ acc' = (acc * 2^(Width - 1) + Sign * Entry(digits[1][at]) + Lambda * Entry(digits[2][at])) % Order
       /\ at' = at - 1
       /\ UNCHANGED <<scalar, stage, first, second, minus, rest, digits>>
Correct == /\ stage = "add" /\ at = 0
           /\ acc' = (acc - (IF first % 2 = 0 THEN Sign ELSE 0) - (IF second % 2 = 0 THEN Lambda ELSE 0)) % Order
           /\ stage' = "end"
           /\ UNCHANGED <<scalar, first, second, minus, rest, digits, at>>
Next == Split \/ Recode \/ Sum \/ Correct
Spec == Init /\ [][Next]_vars

(* both halves are short, every digit is in the table of odd multiples, nothing is left over, and the product is right *)
Short == stage # "split" => first < 2^Half /\ second >= 0 /\ second < 2^Half
Table == stage \in {"add", "end"} => \A h \in 1..2 : rest[h] = 0 /\ \A i \in 1..Length :
           LET d == digits[h][i] IN d % 2 = 1 /\ Size(d) < 2^(Width - 1)
Right == stage = "end" => acc = scalar
=============================================================================
