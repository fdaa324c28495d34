-------------------------------- MODULE Msm --------------------------------
(* Linear combination by windows and buckets as implemented (properties C09 and C27).  Windows of Width bits are summed
   independently, in the parallel build at the same time; then folded from the highest to the lowest.  The scalar one is
   added once, in the lowest window; zero is skipped.  The group has order 17. *)
EXTENDS Small

CONSTANTS Terms, Width, Points

Bits == 5
Starts == {w \in 0..(Bits - 1) : w % Width = 0}
Zeros(S) == [x \in S |-> 0]
VARIABLES points, scalars, next, buckets, sums, total, folded
vars == <<points, scalars, next, buckets, sums, total, folded>>

Init == /\ points \in Vectors(Terms, Points)
        /\ scalars \in Vectors(Terms, F)
        /\ next = Zeros(Starts)
        /\ buckets = [w \in Starts |-> Zeros(1..(2^Width - 1))]
        /\ sums = Zeros(Starts)
        /\ total = 0 /\ folded = {}

(* one pair goes into a bucket of one window *)
Put(w) ==
  LET i == next[w]
      s == scalars[i]
      digit == (s \div 2^w) % 2^Width
  IN /\ i < Terms
     /\ next' = [next EXCEPT ![w] = i + 1]
     /\ IF s = 0 THEN UNCHANGED <<buckets, sums>>
        ELSE IF s = 1 THEN /\ sums' = IF w = 0 THEN [sums EXCEPT ![w] = Add(sums[w], points[i])] ELSE sums
                           /\ UNCHANGED buckets
        ELSE /\ buckets' = IF digit = 0 THEN buckets ELSE [buckets EXCEPT ![w][digit] = Add(buckets[w][digit], points[i])]
             /\ UNCHANGED sums
     /\ UNCHANGED <<points, scalars, total, folded>>

(* running sums from the highest bucket down *)
RECURSIVE Down(_, _, _, _)
Down(b, d, running, acc) == IF d = 0 THEN acc
  ELSE LET r == Add(running, b[d]) IN Down(b, d - 1, r, Add(acc, r))
Sum(w) == /\ next[w] = Terms
          /\ next' = [next EXCEPT ![w] = Terms + 1]
          /\ sums' = [sums EXCEPT ![w] = Down(buckets[w], 2^Width - 1, 0, sums[w])]
          /\ UNCHANGED <<points, scalars, buckets, total, folded>>
Fold == /\ \A w \in Starts : next[w] = Terms + 1
        /\ folded # Starts
        /\ LET w == CHOOSE w \in Starts \ folded : \A v \in Starts \ folded : v <= w
           IN /\ folded' = folded \union {w}
              /\ total' = IF w = 0 THEN Add(total, sums[w]) ELSE Mul(Add(total, sums[w]), 2^Width)
        /\ UNCHANGED <<points, scalars, next, buckets, sums>>
Next == (\E w \in Starts : Put(w) \/ Sum(w)) \/ Fold
Spec == Init /\ [][Next]_vars
Right == folded = Starts => total = SumTo([i \in 0..(Terms - 1) |-> points[i] * scalars[i]], Terms) % P
=============================================================================
