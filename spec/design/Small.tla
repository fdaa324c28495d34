------------------------------- MODULE Small -------------------------------
(* Arithmetic modulo 17, the smallest field with roots of unity of order 16.  As in the field of the library, 7
   generates the multiplicative group and 5 lies outside every smaller group of roots of unity.
   Vectors are functions on 0 .. n - 1. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

P == 17
F == 0..(P - 1)
Letters == {0, 1, P - 1}

Add(a, b) == (a + b) % P
Sub(a, b) == (a + P - b) % P
Mul(a, b) == (a * b) % P
Neg(a) == (P - a) % P
RECURSIVE PowSlow(_, _)
PowSlow(b, e) == IF e = 0 THEN 1 ELSE (b * PowSlow(b, e - 1)) % P
PowTable == [b \in F |-> [e \in 0..15 |-> PowSlow(b, e)]]
(* the exponent may be any number, if the base is not zero *)
Pow(b, e) == IF b = 0 THEN (IF e = 0 THEN 1 ELSE 0) ELSE PowTable[b][e % 16]
Inv(a) == Pow(a, 15)
Div(a, b) == Mul(a, Inv(b))

(* the root of order n, for n = 1, 2, 4, 8, 16 *)
Root(n) == Pow(7, 16 \div n)
Log2(n) == CHOOSE k \in 0..20 : 2^k = n

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n - 1] + SumTo(f, n - 1)
(* value at x of the polynomial with coefficients p[0], ..., p[n - 1] *)
Eval(p, n, x) == SumTo([i \in 0..(n - 1) |-> p[i] * Pow(x, i)], n) % P
DftAt(v, n, w) == [j \in 0..(n - 1) |-> Eval(v, n, Pow(w, j))]
Dft(v, n) == DftAt(v, n, Root(n))
Idft(v, n) == [j \in 0..(n - 1) |-> Mul(Inv(n), Eval(v, n, Pow(Root(n), 16 - j)))]
Vectors(n, S) == [0..(n - 1) -> S]
=============================================================================
