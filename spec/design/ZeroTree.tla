------------------------------ MODULE ZeroTree ------------------------------
(* Lengths in the construction of the vanishing polynomial of m positions out of n as implemented (properties C22 and
   C23).  The positions are divided into parts of at most 63; each part becomes a polynomial kept in 64 places of a
   work area; then, level by level, four neighbours at a time are multiplied by transforms of a length derived from the
   places they occupy.  Only lengths and places are modelled: `lens` is what the program takes the lengths of the parts
   for, `real` what they are.  Length and place are those of the implementation; with Ceiled = FALSE and Own = TRUE
   those of the repairs in fixes/0004 and fixes/0007. *)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Sizes, Ceiled, Own

PerPart == 63
Place == 64
Factor == 4

Min(a, b) == IF a < b THEN a ELSE b
Powers == [k \in 0..16 |-> 2^k]
Up(x) == Powers[CHOOSE k \in 0..16 : Powers[k] >= x /\ (k = 0 \/ Powers[k - 1] < x)]
IsPower(x) == \E k \in 0..16 : Powers[k] = x
RECURSIVE Total(_, _, _)
Total(f, from, k) == IF k = 0 THEN 0 ELSE f[from] + Total(f, from + 1, k - 1)

VARIABLES n, m, count, group, size, lens, real, top, outcome
vars == <<n, m, count, group, size, lens, real, top, outcome>>

Parts(c) == (PerPart + c - 1) \div PerPart
Work == Up(Parts(m) * Place)
Ceiling == IF Ceiled THEN Min(Work, n) ELSE Work

Init == /\ n \in Sizes
        /\ m \in (PerPart + 1)..(n - 1)
        /\ count = Parts(m)
        /\ group = 0
        /\ size = Place
        /\ lens = [i \in 1..count |-> IF i = count THEN 1 + m - (count - 1) * PerPart ELSE Place]
        /\ real = lens
        /\ top = count * Place
        /\ outcome = "running"

Reduced == 1 + (count - 1) \div Factor

(* the product of parts start + 1 .. start + num becomes part group + 1 of the next level *)
Group ==
  LET start == group * Factor
      num == Min(Factor, count - start)
      end == Min((start + Factor) * size, Ceiling)
      room == Min(end - start * size, n)
      at == IF Own THEN start ELSE group
      taken == Total(lens, at + 1, num) - num + 1
      true == Total(real, start + 1, num) - num + 1
      (* a part is cut off if it is taken for shorter than it is, and is mixed with its neighbour if it is taken for longer than its places *)
      cut == \E j \in 1..num : lens[at + j] < real[start + j] \/ lens[at + j] > size
  IN /\ outcome = "running" /\ group < Reduced
     /\ UNCHANGED <<n, m, count, size>>
     /\ IF num = 1
        THEN /\ lens' = [lens EXCEPT ![group + 1] = lens[start + 1]]
             /\ real' = [real EXCEPT ![group + 1] = real[start + 1]]
             /\ group' = group + 1
             /\ UNCHANGED <<top, outcome>>
        ELSE /\ outcome' = IF end < start * size THEN "abort"
                           ELSE IF ~IsPower(room) \/ taken > room THEN "refused"
                           ELSE IF cut \/ true > taken THEN "wrong" ELSE "running"
             /\ lens' = [lens EXCEPT ![group + 1] = taken]
             /\ real' = [real EXCEPT ![group + 1] = true]
             /\ top' = IF (start + num) * size > top THEN (start + num) * size ELSE top
             /\ group' = group + 1
Level ==
  /\ outcome = "running" /\ group = Reduced
  /\ IF Reduced > 1
     THEN /\ size' = Up(lens[1])
          (* part i of the new level was put at Factor * size * (i - 1) and is read at size' * (i - 1) *)
          /\ outcome' = IF Up(lens[1]) = Factor * size THEN outcome ELSE "misplaced"
     ELSE /\ outcome' = IF count * size >= Min(top, n) THEN "done" ELSE "leftover"
          /\ UNCHANGED size
  /\ count' = Reduced /\ group' = 0
  (* what the places beyond the parts of the new level held is forgotten *)
  /\ lens' = SubSeq(lens, 1, Reduced) /\ real' = SubSeq(real, 1, Reduced)
  /\ UNCHANGED <<n, m, top>>
Next == Group \/ Level
Spec == Init /\ [][Next]_vars

(* the result, if any, is the product of all parts, in the places it is read from, with zeros above it *)
NeverWrong == outcome \notin {"wrong", "leftover", "misplaced"}
Complete == outcome = "done" => real[1] = m + 1 /\ m + 1 <= n
Within == top <= Work
NeverRefused == outcome \notin {"refused", "abort"}
=============================================================================
