-------------------------------- MODULE Reach --------------------------------
(***************************************************************************)
(* Reachability: can the first system of a case come from its start to its *)
(* target?  A case's `bound` limits the number of transitions taken; -1    *)
(* stands for no limit.                                                    *)
(***************************************************************************)
EXTENDS Runs
VARIABLES i, k, ls, v
vars == <<i, k, ls, v>>
C == Cases[i]
T == Sys[i][1]

Init == /\ i \in DOMAIN Cases
        /\ k = 0
        /\ \E x \in Starts(Cases[i], Sys[i][1]) : ls = x[1] /\ v = x[2]
Delay == LET w == Succ(C, v) IN
         /\ Inv(C, T, ls, w)
         /\ v' = w /\ UNCHANGED <<i, k, ls>>
Act == /\ C.bound = -1 \/ k < C.bound
       /\ \E a \in Actions(T) : \E m \in Moves(C, T, ls, a, v) :
            ls' = m[1] /\ v' = After(C, v, m[2])
       /\ k' = IF C.bound = -1 THEN 0 ELSE k + 1
       /\ i' = i
(* A state of the target is printed, and nothing comes after it.           *)
Next == IF Goal(C, T, <<ls, v>>)
        THEN PrintT("CASE " \o ToJson([c |-> i, k |-> k])) /\ FALSE /\ UNCHANGED vars
        ELSE Delay \/ Act
Spec == Init /\ [][Next]_vars

Inside == Inv(C, T, ls, v)
===============================================================================
