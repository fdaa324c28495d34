-------------------------------- MODULE Das --------------------------------
(* The extension as implemented (property C21): in place, a butterfly downwards, two halves, a butterfly upwards; the
   halves may be extended at the same time.  A node <<h, b>> is the call on the 2^h places from b on; its butterflies
   are done one by one, first those downwards, then, when both halves are done, those upwards.  A node of two places
   does both at once. *)
EXTENDS Small

CONSTANTS K, Alphabet

N == 2^K
W == Root(2 * N)
Nodes == {<<h, b>> \in (1..K) \X (0..(N - 1)) : b % 2^h = 0}

VARIABLES data, vals, down, up
vars == <<data, vals, down, up>>

Init == /\ data \in Vectors(N, Alphabet)
        /\ vals = data
        /\ down = [x \in Nodes |-> 0]
        /\ up = [x \in Nodes |-> 0]

Stride(h) == N \div 2^h
Parent(x) == <<x[1] + 1, x[2] - (x[2] % 2^(x[1] + 1))>>
Called(x) == IF x[1] = K THEN TRUE ELSE down[Parent(x)] = 2^x[1]
Finished(x) == up[x] = 2^(x[1] - 1)

Down(x) ==
  LET h == x[1]
      half == 2^(h - 1)
      i == down[x]
      lo == x[2] + i
      hi == x[2] + half + i
  IN /\ h > 1 /\ Called(x) /\ i < half
     /\ vals' = [vals EXCEPT ![lo] = Add(vals[lo], vals[hi]),
                             ![hi] = Mul(Sub(vals[lo], vals[hi]), Pow(W, 16 * 2 * N - i * 2 * Stride(h)))]
     /\ down' = [down EXCEPT ![x] = i + 1]
     /\ UNCHANGED <<data, up>>
Up(x) ==
  LET h == x[1]
      half == 2^(h - 1)
      i == up[x]
      lo == x[2] + i
      hi == x[2] + half + i
      y == Mul(vals[hi], Pow(W, (1 + 2 * i) * Stride(h)))
  IN /\ h > 1 /\ down[x] = half /\ Finished(<<h - 1, x[2]>>) /\ Finished(<<h - 1, x[2] + half>>) /\ i < half
     /\ vals' = [vals EXCEPT ![lo] = Add(vals[lo], y), ![hi] = Sub(vals[lo], y)]
     /\ up' = [up EXCEPT ![x] = i + 1]
     /\ UNCHANGED <<data, down>>
Pair(x) ==
  LET a == Add(vals[x[2]], vals[x[2] + 1])
      b == Mul(Sub(vals[x[2]], vals[x[2] + 1]), Pow(W, Stride(1)))
  IN /\ x[1] = 1 /\ Called(x) /\ up[x] = 0
     /\ vals' = [vals EXCEPT ![x[2]] = Add(a, b), ![x[2] + 1] = Sub(a, b)]
     /\ up' = [up EXCEPT ![x] = 1]
     /\ UNCHANGED <<data, down>>

Next == \E x \in Nodes : Down(x) \/ Up(x) \/ Pair(x)
Spec == Init /\ [][Next]_vars

(* in the end the places hold N times the values at the odd powers of the polynomial with the given values at the even ones *)
Right == (up[<<K, 0>>] = N \div 2) =>
  LET c == Idft(data, N) IN \A j \in 0..(N - 1) : Mul(vals[j], Inv(N % P)) = Eval(c, N, Pow(W, 2 * j + 1))
=============================================================================
