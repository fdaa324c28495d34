-------------------------------- MODULE Fk20 --------------------------------
(* Amortised proofs as implemented (properties C24 and C25): one Toeplitz product per residue modulo the chunk length,
   each by transforms of twice the number of chunks; their sum, transformed, gives the proofs of all chunks.  Group
   elements are their logarithms modulo 17.  The settings are made for polynomials of Made coefficients, the polynomial
   given has Given. *)
EXTENDS Small

CONSTANTS Made, Given, Chunks, Alphabet

VARIABLES secret, chunk, poly, files, sum, residue, stage, proofs
vars == <<secret, chunk, poly, files, sum, residue, stage, proofs>>

Coefficients == 0..(Given - 1)
K == Given \div chunk
Dim(k) == 0..(2 * k - 1)

Init == /\ secret \in F
        /\ chunk \in Chunks
        /\ poly \in [Coefficients -> Alphabet]
        /\ files = <<>> /\ sum = <<>> /\ residue = 0 /\ stage = "settings" /\ proofs = <<>>

(* the powers of the secret a residue needs, backwards, then the identity, then padding *)
Power(e) == Pow(secret, e)
Column(offset) ==
  LET k == Made \div chunk
      from == IF Made >= chunk + 1 + offset THEN Made - chunk - 1 - offset ELSE 0
      Index(i) == IF from >= i * chunk THEN from - i * chunk ELSE 0
  IN [i \in Dim(k) |-> IF i + 1 < k THEN Power(Index(i)) ELSE 0]
Settings == /\ stage = "settings"
            /\ files' = [o \in 0..(chunk - 1) |-> Dft(Column(o), 2 * (Made \div chunk))]
            /\ sum' = [i \in Dim(K) |-> 0]
            /\ stage' = "files"
            /\ UNCHANGED <<secret, chunk, poly, residue, proofs>>

Toeplitz(offset) ==
  [i \in Dim(K) |-> IF i = 0 THEN poly[Given - 1 - offset]
                    ELSE IF i < K + 2 THEN 0
                    ELSE poly[2 * chunk - offset - 1 + (i - K - 2) * chunk]]
File == /\ stage = "files" /\ residue < chunk
        /\ LET t == Dft(Toeplitz(residue), 2 * K)
           IN sum' = [i \in Dim(K) |-> Add(sum[i], Mul(files[residue][i], t[i]))]
        /\ residue' = residue + 1
        /\ UNCHANGED <<secret, chunk, poly, files, stage, proofs>>
Finish == /\ stage = "files" /\ residue = chunk
          /\ LET h == Idft(sum, 2 * K)
             IN proofs' = Dft([i \in Dim(K) |-> IF i < K THEN h[i] ELSE 0], 2 * K)
          /\ stage' = "done"
          /\ UNCHANGED <<secret, chunk, poly, files, sum, residue>>
Next == Settings \/ File \/ Finish
Spec == Init /\ [][Next]_vars

(* the quotient of the polynomial by x^chunk - a, at the secret *)
RECURSIVE Quotient(_, _)
Quotient(e, a) ==   \* coefficient e
  IF e + chunk >= Given THEN 0 ELSE Add(poly[e + chunk], Mul(a, Quotient(e + chunk, a)))
Proof(a) == SumTo([e \in Coefficients |-> Mul(Quotient(e, a), Power(e))], Given) % P
Right == stage = "done" => \A i \in Dim(K) : proofs[i] = Proof(Pow(Root(2 * K), i))
=============================================================================
