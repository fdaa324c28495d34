------------------------------- MODULE Roots -------------------------------
(* Square roots in the scalar field as implemented (properties C01 and C31), without branches on the data: every pass is made
   up to its greatest length and selects what to keep.  The field has Size elements, Size - 1 = Cofactor * 2^Order. *)
EXTENDS Integers

CONSTANTS Size, Order, Cofactor, Generator
ASSUME Size - 1 = Cofactor * 2^Order

Mul(a, b) == (a * b) % Size
RECURSIVE Pow(_, _)
Pow(a, e) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN Mul(a, Pow(a, e - 1)) ELSE Pow(Mul(a, a), e \div 2)
Unity == Pow(Generator, Cofactor)

VARIABLES element, pass, v, x, b, z, done
vars == <<element, pass, v, x, b, z, done>>
Init == /\ element \in 0..(Size - 1)
        /\ pass = Order /\ v = Order
        /\ LET w == Pow(element, (Cofactor - 1) \div 2)
           IN x = Mul(element, w) /\ b = Mul(Mul(element, w), w)
        /\ z = Unity /\ done = FALSE

(* one pass looks for the order of b by squaring and moves z along with it *)
RECURSIVE Inner(_, _, _, _, _)
Inner(j, k, tmp, less, zz) ==
  IF j >= pass THEN <<k, zz>>
  ELSE LET one == tmp = 1
           squared == IF one THEN Mul(zz, zz) ELSE Mul(tmp, tmp)
           still == less /\ j # v
       IN Inner(j + 1, IF one THEN k ELSE j, IF one THEN tmp ELSE squared, still,
                IF still /\ one THEN squared ELSE zz)
Pass == /\ pass >= 1
        /\ LET t == Inner(2, 1, Mul(b, b), TRUE, z)
               zz == t[2]
           IN /\ x' = IF b = 1 THEN x ELSE Mul(x, zz)
              /\ z' = Mul(zz, zz)
              /\ b' = Mul(b, Mul(zz, zz))
              /\ v' = t[1]
        /\ pass' = pass - 1
        /\ done' = (done \/ b = 1)
        /\ UNCHANGED element
Next == Pass
Spec == Init /\ [][Next]_vars

Square == element = 0 \/ Pow(element, (Size - 1) \div 2) = 1
(* until b has become one, x^2 = element * b and the order of b falls; from then on x is a root whatever becomes of b *)
Kept == Square /\ element # 0 => IF done THEN Mul(x, x) = element ELSE Mul(x, x) = Mul(element, b)
Falls == Square /\ element # 0 /\ ~done /\ pass >= 1 => Pow(b, 2^(pass - 1)) = 1
Root == pass = 0 => (Mul(x, x) = element) = Square
=============================================================================
