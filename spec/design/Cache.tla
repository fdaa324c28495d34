------------------------------- MODULE Cache -------------------------------
(* The tables of powers in the parallel build, which the recoveries of all threads share (property C27).

   Caller t needs the first Needs[t] powers.  As implemented, a caller looks at the length of the table, pushes
   what is missing one entry after the other, each computed from the entry before the position it believes it is
   pushing to, and then reads entry after entry.  With Lock the growing is one critical section.  The table has
   Start entries in the beginning.  A power is represented by its exponent: the right entry i is i - 1. *)
EXTENDS Naturals, Sequences

CONSTANTS Needs, Lock, Start

Callers == DOMAIN Needs

VARIABLES table, pc, pos, holder, got
vars == <<table, pc, pos, holder, got>>

Init == /\ table = [i \in 1..Start |-> i - 1]
        /\ pc = [t \in Callers |-> "look"]
        /\ pos = [t \in Callers |-> 0]
        /\ holder = 0
        /\ got = [t \in Callers |-> <<>>]

Look(t) == /\ pc[t] = "look"
           /\ Lock => holder = 0
           /\ IF Len(table) < Needs[t]
              THEN /\ pc' = [pc EXCEPT ![t] = IF Len(table) = 0 THEN "first" ELSE "push"]
                   /\ pos' = [pos EXCEPT ![t] = Len(table)]
                   /\ holder' = IF Lock THEN t ELSE holder
              ELSE /\ pc' = [pc EXCEPT ![t] = "read"]
                   /\ pos' = [pos EXCEPT ![t] = 0]
                   /\ UNCHANGED holder
           /\ UNCHANGED <<table, got>>

(* the table was seen empty: the first power is pushed, and pushing goes on at the length the table has then *)
First(t) == /\ pc[t] = "first"
            /\ table' = Append(table, 0)
            /\ pos' = [pos EXCEPT ![t] = Len(table) + 1]
            /\ pc' = [pc EXCEPT ![t] = "push"]
            /\ UNCHANGED <<holder, got>>

Push(t) == /\ pc[t] = "push"
           /\ IF pos[t] < Needs[t]
              THEN /\ table' = Append(table, table[pos[t]] + 1)
                   /\ pos' = [pos EXCEPT ![t] = @ + 1]
                   /\ UNCHANGED <<pc, holder>>
              ELSE /\ pc' = [pc EXCEPT ![t] = "read"]
                   /\ pos' = [pos EXCEPT ![t] = 0]
                   /\ holder' = IF Lock THEN 0 ELSE holder
                   /\ UNCHANGED table
           /\ UNCHANGED got

Read(t) == /\ pc[t] = "read"
           /\ IF pos[t] < Needs[t]
              THEN /\ got' = [got EXCEPT ![t] = Append(@, table[pos[t] + 1])]
                   /\ pos' = [pos EXCEPT ![t] = @ + 1]
                   /\ UNCHANGED pc
              ELSE /\ pc' = [pc EXCEPT ![t] = "done"]
                   /\ UNCHANGED <<pos, got>>
           /\ UNCHANGED <<table, holder>>

Done == (\A t \in Callers : pc[t] = "done") /\ UNCHANGED vars

Next == (\E t \in Callers : Look(t) \/ First(t) \/ Push(t) \/ Read(t)) \/ Done
Spec == Init /\ [][Next]_vars

(* whatever a caller reads is the right power *)
Right == \A t \in Callers : \A i \in DOMAIN got[t] : got[t][i] = i - 1
=============================================================================
