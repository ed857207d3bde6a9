------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Tokens.  Clients ask for tokens; the server hands out the value of its  *)
(* counter and raises it, in one step (Atomic) or, for comparison, in two. *)
(* Own, that no token is given twice, holds for the atomic counter in all  *)
(* interleavings, and TLC finds the interleaving that breaks the other.    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Clients, N, Atomic
VARIABLES counter, seen, got
vars == <<counter, seen, got>>
Init == counter = 1 /\ seen = [c \in Clients |-> 0] /\ got = [c \in Clients |-> <<>>]
Ask(c) == /\ Len(got[c]) < N
          /\ IF Atomic
             THEN /\ got' = [got EXCEPT ![c] = Append(@, counter)]
                  /\ counter' = counter + 1
                  /\ UNCHANGED seen
             ELSE IF seen[c] = 0
                  THEN seen' = [seen EXCEPT ![c] = counter] /\ UNCHANGED <<counter, got>>
                  ELSE /\ got' = [got EXCEPT ![c] = Append(@, seen[c])]
                       /\ counter' = seen[c] + 1
                       /\ seen' = [seen EXCEPT ![c] = 0]
Next == \E c \in Clients : Ask(c)
Spec == Init /\ [][Next]_vars
Given == {<<c, k>> : c \in Clients, k \in 1..N}
Own == \A p, q \in Given : p # q /\ p[2] \in DOMAIN got[p[1]] /\ q[2] \in DOMAIN got[q[1]]
                           => got[p[1]][p[2]] # got[q[1]][q[2]]
=============================================================================
