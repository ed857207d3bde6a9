-------------------------------- MODULE DetAny --------------------------------
(***************************************************************************)
(* Determinism does not depend on how the initial location is entered: the *)
(* locations that edges lead to from the initial location, whatever the    *)
(* clocks are at the start, and in every one of them the actions that some *)
(* state within the invariant has more than one move for.                  *)
(***************************************************************************)
EXTENDS Det

(* Every edge whose guard and target invariant hold, from any start values;  *)
(* those of universal and inconsistent locations are not taken.              *)
Loops(a) == LET k == C.comps[T.k].kind[ls[2]] IN k = "u" \/ (k = "i" /\ a \in T.in)
ANext == /\ i' = i
         /\ \/ v' = Succ(C, v) /\ ls' = ls /\ (Inv(C, T, ls, v) => Inv(C, T, ls, v'))
            \/ \E a \in {x \in Actions(T) : ~Loops(x)} : \E e \in CEdges(C, T.k, ls[2], a, v) :
                  /\ ls' = <<"c", C.comps[T.k].edges[e].t>>
                  /\ v' = After(C, v, C.comps[T.k].edges[e].u)
AInit == /\ i \in DOMAIN Cases
         /\ ls = InitLoc(Cases[i], Sys[i][1])
         /\ v \in Points(Cases[i])
ASpec == AInit /\ [][ANext]_vars

(* Ambiguity of the locations: every state of every location.               *)
LInit == /\ i \in DOMAIN Cases
         /\ ls \in {<<"c", n>> : n \in DOMAIN Cases[i].comps[1].names}
         /\ v \in Points(Cases[i])
         /\ Inv(Cases[i], Sys[i][1], ls, v)
LSpec == LInit /\ [][FALSE]_vars

Here == PrintT("CASE " \o ToJson([c |-> i, w |-> "at", l |-> Name(C, T, ls)[2],
                                  a |-> IF Inv(C, T, ls, v) THEN Amb(C, T, ls, v) ELSE {}]))
===============================================================================
