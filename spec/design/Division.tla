------------------------------ MODULE Division ------------------------------
(* Division of polynomials both ways as implemented (properties C15 and C16): coefficient by coefficient from the highest,
   and by the inverse of the reversed divisor, whose precision is doubled, or doubled plus one, following the
   binary digits of the precision wanted.  The two run side by side in any order. *)
EXTENDS Small, Integers

CONSTANTS Longest, Dividends, Divisors

VARIABLES a, n, b, m, left, long, diff, inverse, precision, mask, fast
vars == <<a, n, b, m, left, long, diff, inverse, precision, mask, fast>>

Coefficient(p, len, i) == IF i < len THEN p[i] ELSE 0
(* the first len coefficients of a product *)
Product(p, np, q, nq, len) ==
  [k \in 0..(len - 1) |-> SumTo([i \in 0..k |-> Coefficient(p, np, i) * Coefficient(q, nq, k - i)], k + 1) % P]
Flip(p, len) == [i \in 0..(len - 1) |-> p[len - 1 - i]]
Zeros(len) == [i \in 0..(len - 1) |-> 0]
Want == n - m + 1
RECURSIVE Top(_, _)
Top(x, t) == IF 2 * t > x THEN t ELSE Top(x, 2 * t)

Init == /\ n \in 1..Longest /\ m \in 1..n
        /\ a \in Vectors(n, Dividends) /\ b \in Vectors(m, Divisors) /\ b[m - 1] # 0
        /\ left = a /\ long = Zeros(Want) /\ diff = n - m
        /\ inverse = [i \in 0..(Want - 1) |-> IF i = 0 THEN Inv(b[m - 1]) ELSE 0]
        /\ precision = 0
        /\ mask = IF m = 1 THEN 0 ELSE Top(Want - 1, 1)
        /\ fast = <<>>

Long == /\ diff >= 0
        /\ LET q == Div(left[diff + m - 1], b[m - 1])
           IN /\ long' = [long EXCEPT ![diff] = q]
              /\ left' = [i \in 0..(n - 1) |-> IF i >= diff /\ i < diff + m THEN Sub(left[i], Mul(q, b[i - diff])) ELSE left[i]]
        /\ diff' = diff - 1
        /\ UNCHANGED <<a, n, b, m, inverse, precision, mask, fast>>

Double == /\ mask # 0
          /\ LET d == (2 * precision) + (((Want - 1) \div mask) % 2)
                 len == IF d + 1 < m + Want - 1 THEN d + 1 ELSE m + Want - 1
                 t == Product(Flip(b, m), m, inverse, Want, len)
                 s == [i \in 0..(len - 1) |-> IF i = 0 THEN Sub(2, t[0]) ELSE Neg(t[i])]
                 c == Product(inverse, Want, s, len, d + 1)
             IN /\ precision' = d
                /\ inverse' = [i \in 0..(Want - 1) |-> IF i <= d THEN c[i] ELSE inverse[i]]
          /\ mask' = mask \div 2
          /\ UNCHANGED <<a, n, b, m, left, long, diff, fast>>
Finish == /\ mask = 0 /\ fast = <<>>
          /\ fast' = IF m = 1 THEN <<[i \in 0..(n - 1) |-> Div(a[i], b[0])]>>
                     ELSE <<Flip(Product(Flip(a, n), n, inverse, Want, Want), Want)>>
          /\ UNCHANGED <<a, n, b, m, left, long, diff, inverse, precision, mask>>
Next == Long \/ Double \/ Finish
Spec == Init /\ [][Next]_vars

Tops == \A i \in 0..(n - 1) : i > diff + m - 1 => left[i] = 0
Whole == \A k \in 0..(n - 1) : Add(left[k], Product(long, Want, b, m, n)[k]) = a[k]
(* so far as the precision goes, divisor and inverse multiply to one *)
Precise == m > 1 => LET t == Product(Flip(b, m), m, inverse, Want, precision + 1)
                    IN \A i \in 0..precision : t[i] = (IF i = 0 THEN 1 ELSE 0)
Reached == m > 1 /\ mask = 0 => precision = Want - 1
Same == fast # <<>> /\ diff < 0 => fast[1] = long
=============================================================================
