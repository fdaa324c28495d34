-------------------------------- MODULE Kzg --------------------------------
(* Commitments, openings at one point and at a coset, and their verdicts (properties C16 to C20) in a group of order 17,
   elements by their logarithms; the pairing is the product of logarithms.  One adversary picks any claim. *)
EXTENDS Small

CONSTANTS Length, Alphabet

Indices == 0..(Length - 1)
VARIABLES secret, poly, step, x, y, proof, verdict
vars == <<secret, poly, step, x, y, proof, verdict>>

(* coefficient e of the quotient of the polynomial by X^m - a, and of the remainder *)
RECURSIVE Quotient(_, _, _)
Quotient(e, m, a) == IF e + m >= Length THEN 0 ELSE Add(poly[e + m], Mul(a, Quotient(e + m, m, a)))
Remainder(e, m, a) == Add(poly[e], Mul(a, Quotient(e, m, a)))
At(f, n) == SumTo([e \in 0..(n - 1) |-> Mul(f[e], Pow(secret, e))], n) % P
Commitment == At(poly, Length)
Honest(m, a) == At([e \in Indices |-> Quotient(e, m, a)], Length)
Values(m) == [i \in 0..(m - 1) |-> Eval(poly, Length, Mul(x, Pow(Root(m), i)))]
(* as implemented: interpolate the claimed values on the roots of unity, unscale by x *)
Interpolated(v, m) == [i \in 0..(m - 1) |-> Mul(Idft(v, m)[i], Inv(Pow(x, i)))]
Pairing(m, v, q) == Sub(Commitment, At(Interpolated(v, m), m)) = Mul(q, Sub(Pow(secret, m), Pow(x, m)))

Init == /\ secret \in F
        /\ poly \in Vectors(Length, Alphabet)
        /\ step = "commit" /\ x = 0 /\ y = <<>> /\ proof = 0 /\ verdict = FALSE
Claim(m) == /\ step = "commit"
            /\ step' = "claim"
            /\ x' \in F \ {0}
            /\ y' \in Vectors(m, IF m = 1 THEN F ELSE Letters)
            /\ proof' \in F
            /\ UNCHANGED <<secret, poly, verdict>>
Judge == /\ step = "claim"
         /\ step' = "judged"
         /\ verdict' = Pairing(Cardinality(DOMAIN y), y, proof)
         /\ UNCHANGED <<secret, poly, x, y, proof>>
Next == Claim(1) \/ Claim(2) \/ Judge
Spec == Init /\ [][Next]_vars

M == Cardinality(DOMAIN y)
Blind == Pow(secret, M) = Pow(x, M)
(* the honest claim is accepted *)
Complete == (step = "judged" /\ y = Values(M) /\ proof = Honest(M, Pow(x, M))) => verdict
(* unless the secret is hit, exactly one proof goes with each claim, and with the right values it is the honest one *)
Unique == (step = "judged" /\ ~Blind /\ y = Values(M) /\ verdict) => proof = Honest(M, Pow(x, M))
Sound == (step = "judged" /\ ~Blind /\ proof = Honest(M, Pow(x, M)) /\ verdict) =>
            At(Interpolated(y, M), M) = At(Interpolated(Values(M), M), M)
(* at one point: with the honest proof only the right value is accepted *)
SoundOne == (step = "judged" /\ M = 1 /\ proof = Honest(1, x) /\ verdict) => y = Values(1)
=============================================================================
