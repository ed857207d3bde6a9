-------------------------------- MODULE Refine --------------------------------
(***************************************************************************)
(* Refinement: does the first system of a case refine its second system?   *)
(* The states are pairs; a pair is bad when the left system can output     *)
(* something the right system cannot, when the right system accepts an     *)
(* input the left system does not, or when the left system can let time    *)
(* pass further than the right system allows.  The left system refines the *)
(* right one exactly when no bad pair is reachable.                        *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, l, r, v
vars == <<i, l, r, v>>
C == Cases[i]
L == Sys[i][1]
R == Sys[i][2]

(* The conditions on the action sets under which the question is answered. *)
Comparable(x, y) == /\ x.in \cap y.out = {} /\ y.in \cap x.out = {}
                    /\ x.in \subseteq y.in /\ y.out \subseteq x.out

Init == /\ i \in DOMAIN Cases
        /\ Comparable(Sys[i][1], Sys[i][2])
        /\ l = InitLoc(Cases[i], Sys[i][1])
        /\ r = InitLoc(Cases[i], Sys[i][2])
        /\ v = Zero(Cases[i])
        /\ Inv(Cases[i], Sys[i][1], l, v)

Still(x) == {<<x, <<>>>>}
LOut(a) == Moves(C, L, l, a, v)
ROut(a) == IF a \in R.out THEN Moves(C, R, r, a, v) ELSE Still(r)
LIn(a) == IF a \in L.in THEN Moves(C, L, l, a, v) ELSE Still(l)
RIn(a) == Moves(C, R, r, a, v)

Later == Succ(C, v)
Bad == (IF Inv(C, R, r, v) THEN {} ELSE {<<"start", "">>})
       \cup {<<"output", a>> : a \in {b \in L.out : LOut(b) # {} /\ ROut(b) = {}}}
       \cup {<<"input", a>> : a \in {b \in R.in : RIn(b) # {} /\ LIn(b) = {}}}
       \cup (IF Inv(C, L, l, Later) /\ ~Inv(C, R, r, Later) THEN {<<"delay", "">>} ELSE {})

Pair(a, ms, ns) == \E m \in ms : \E n \in ns :
                      /\ l' = m[1] /\ r' = n[1]
                      /\ v' = After(C, v, m[2] \o n[2])
                      /\ i' = i
Act == \/ \E a \in L.out : Pair(a, LOut(a), ROut(a))
       \/ \E a \in R.in : Pair(a, LIn(a), RIn(a))
Delay == /\ Inv(C, L, l, Later) /\ v' = Later /\ UNCHANGED <<i, l, r>>
(* A bad pair is printed, and nothing comes after it.                      *)
Next == LET b == Bad IN
        IF b = {} THEN Act \/ Delay
        ELSE /\ PrintT("CASE " \o ToJson([c |-> i, l |-> Name(C, L, l), r |-> Name(C, R, r), v |-> v, b |-> b]))
             /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* Pairs stay inside both invariants, but for a bad start.                 *)
Inside == Inv(C, L, l, v) /\ (Inv(C, R, r, v) \/ v = Zero(C))
===============================================================================
