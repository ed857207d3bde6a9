--------------------------------- MODULE Det ---------------------------------
(***************************************************************************)
(* Determinism of components: the ambiguous (location, action) pairs that  *)
(* some reachable state has.  The system of a case is one component.       *)
(***************************************************************************)
EXTENDS Runs
VARIABLES i, ls, v
vars == <<i, ls, v>>
C == Cases[i]
T == Sys[i][1]

Amb(c, t, loc, w) == {a \in Actions(t) : Cardinality(Moves(c, t, loc, a, w)) > 1}

Init == /\ i \in DOMAIN Cases
        /\ ls = InitLoc(Cases[i], Sys[i][1])
        /\ v = Zero(Cases[i])
        /\ Inv(Cases[i], Sys[i][1], ls, v)
Next == /\ i' = i
        /\ \/ v' = Succ(C, v) /\ ls' = ls /\ Inv(C, T, ls, v')
           \/ \E a \in Actions(T) : \E m \in Moves(C, T, ls, a, v) :
                 ls' = m[1] /\ v' = After(C, v, m[2])
Spec == Init /\ [][Next]_vars

(* Reachable ambiguity. *)
Emit == Amb(C, T, ls, v) = {} \/
        PrintT("CASE " \o ToJson([c |-> i, w |-> "reach", l |-> Name(C, T, ls)[2], a |-> Amb(C, T, ls, v)]))
==============================================================================
