------------------------------ MODULE Recover ------------------------------
(* Recovery of lost samples as implemented (property C23): multiply the samples by the vanishing polynomial of the lost
   positions, divide the two on a shifted domain, where the divisor has no zero, and shift back. *)
EXTENDS Small

CONSTANTS N, Alphabet

Shift == 5
VARIABLES poly, lost, stage, zero, values, above, below
vars == <<poly, lost, stage, zero, values, above, below>>

Nothing == [i \in 0..(N - 1) |-> 0]
Init == /\ lost \in (SUBSET (0..(N - 1))) \ {{}, 0..(N - 1)}
        /\ poly \in {p \in Vectors(N, Alphabet) : \A i \in 0..(N - 1) : i >= N - Cardinality(lost) => p[i] = 0}
        /\ stage = "samples"
        /\ zero = Nothing /\ above = Nothing /\ below = Nothing
        /\ values = [i \in 0..(N - 1) |-> IF i \in lost THEN 0 ELSE Eval(poly, N, Pow(Root(N), i))]

(* coefficients of the product of x - w^i over the lost positions *)
RECURSIVE Product(_)
Product(S) == IF S = {} THEN [i \in 0..N |-> IF i = 0 THEN 1 ELSE 0]
  ELSE LET j == CHOOSE j \in S : TRUE
           q == Product(S \ {j})
           w == Pow(Root(N), j)
       IN [i \in 0..N |-> Sub(IF i = 0 THEN 0 ELSE q[i - 1], Mul(w, q[i]))]

Vanish == /\ stage = "samples"
          /\ LET q == Product(lost) IN zero' = [i \in 0..(N - 1) |-> q[i]]
          /\ stage' = "vanish"
          /\ UNCHANGED <<poly, lost, values, above, below>>
Multiply == /\ stage = "vanish"
            /\ values' = LET e == Dft(zero, N) IN [i \in 0..(N - 1) |-> Mul(values[i], e[i])]
            /\ stage' = "multiply"
            /\ UNCHANGED <<poly, lost, zero, above, below>>
Scaled(p, by) == [i \in 0..(N - 1) |-> Mul(p[i], Pow(by, i))]
Scale == /\ stage = "multiply"
         /\ above' = Dft(Scaled(Idft(values, N), Inv(Shift)), N)
         /\ below' = Dft(Scaled(zero, Inv(Shift)), N)
         /\ stage' = "scale"
         /\ UNCHANGED <<poly, lost, zero, values>>
Divide == /\ stage = "scale"
          /\ values' = Dft(Scaled(Idft([i \in 0..(N - 1) |-> Div(above[i], below[i])], N), Shift), N)
          /\ stage' = "done"
          /\ UNCHANGED <<poly, lost, zero, above, below>>
Next == Vanish \/ Multiply \/ Scale \/ Divide
Spec == Init /\ [][Next]_vars

(* the vanishing polynomial is zero at the lost positions and nowhere else *)
Vanishes == stage = "vanish" => \A i \in 0..(N - 1) : (Eval(zero, N, Pow(Root(N), i)) = 0) = (i \in lost)
NeverByZero == stage = "scale" => \A i \in 0..(N - 1) : below[i] # 0
Recovered == stage = "done" => values = Dft(poly, N)
=============================================================================
