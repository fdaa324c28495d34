-------------------------------- MODULE Fft --------------------------------
(* The recursive transform as implemented (properties C11 and C27): the result is computed in place, in two halves
   which may be computed one after the other or, in the parallel build, at the same time, and combined by
   butterflies.  A node <<h, b>> is the call that fills the 2^h places from b on; all interleavings of the
   butterflies of nodes that do not wait for each other are explored. *)
EXTENDS Small

CONSTANTS K, Alphabet, Inverse

N == 2^K
Nodes == {<<h, b>> \in (1..K) \X (0..(N - 1)) : b % 2^h = 0}
Roots == [i \in 0..N |-> Pow(Root(N), IF Inverse THEN 16 - i ELSE i)]
(* the part of the data a node transforms: every (N / 2^h)-th from Off on *)
RECURSIVE OffFrom(_, _)
OffFrom(j, b) == IF j = K THEN 0 ELSE ((b \div 2^j) % 2) * (N \div 2^(j + 1)) + OffFrom(j + 1, b)
Off(h, b) == OffFrom(h, b)

VARIABLES data, ret, done
vars == <<data, ret, done>>

Init == /\ data \in Vectors(N, Alphabet)
        /\ ret = [b \in 0..(N - 1) |-> data[Off(0, b)]]
        /\ done = [x \in Nodes |-> 0]

Complete(h, b) == IF h = 0 THEN TRUE ELSE done[<<h, b>>] = 2^(h - 1)

Butterfly(x) ==
  LET h == x[1]
      b == x[2]
      half == 2^(h - 1)
      i == done[x]
      y == Mul(ret[b + i + half], Roots[i * (N \div 2^h)])
  IN /\ Complete(h - 1, b) /\ Complete(h - 1, b + half)
     /\ i < half
     /\ ret' = [ret EXCEPT ![b + i + half] = Sub(ret[b + i], y), ![b + i] = Add(ret[b + i], y)]
     /\ done' = [done EXCEPT ![x] = i + 1]
     /\ UNCHANGED data

Next == \E x \in Nodes : Butterfly(x)
Spec == Init /\ [][Next]_vars

(* a completed node holds the transform of its part of the data until the node above it begins *)
Begun(x) == IF x[1] = K THEN FALSE ELSE done[<<x[1] + 1, x[2] - (x[2] % 2^(x[1] + 1))>>] > 0
Right == \A x \in Nodes : (Complete(x[1], x[2]) /\ ~Begun(x)) =>
  LET n == 2^x[1]
      part == [i \in 0..(n - 1) |-> data[Off(x[1], x[2]) + i * (N \div n)]]
      w == IF Inverse THEN Inv(Root(n)) ELSE Root(n)
  IN \A j \in 0..(n - 1) : ret[x[2] + j] = Eval(part, n, Pow(w, j))
=============================================================================
