-------------------------------- MODULE Table --------------------------------
(***************************************************************************)
(* The moves of every system of every case, in every reachable state and   *)
(* one step of time beyond the invariant.  Each state is printed with its  *)
(* moves, for the replay into the code.                                    *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, s, ls, v
vars == <<i, s, ls, v>>
C == Cases[i]
T == Sys[i][s]

Init == /\ i \in DOMAIN Cases
        /\ s \in DOMAIN Cases[i].sys
        /\ ls = InitLoc(Cases[i], Sys[i][s])
        /\ v = Zero(Cases[i])

Ok == Inv(C, T, ls, v)

Delay == /\ Ok
         /\ v' = Succ(C, v)
         /\ UNCHANGED <<i, s, ls>>
Act == /\ Ok
       /\ \E a \in Actions(T) : \E m \in Moves(C, T, ls, a, v) :
             /\ ls' = m[1]
             /\ v' = After(C, v, m[2])
             /\ UNCHANGED <<i, s>>
Next == Delay \/ Act
Spec == Init /\ [][Next]_vars

MoveSet == UNION {{<<a, Name(C, T, m[1]), Assign(C, v, m[2])>> : m \in Moves(C, T, ls, a, v)} : a \in Actions(T)}

Emit == PrintT("CASE " \o ToJson([c |-> i, s |-> s, l |-> Name(C, T, ls), v |-> v, ok |-> Ok, m |-> MoveSet]))

(* A move never leads to a state outside the invariant: the definition of  *)
(* the operators keeps every operand inside its own.                       *)
Inside == \A a \in Actions(T) : \A m \in Moves(C, T, ls, a, v) : Inv(C, T, m[1], Assign(C, v, m[2]))
=============================================================================
