--------------------------------- MODULE Same ---------------------------------
(***************************************************************************)
(* Do the two systems of a case behave alike?  They are run together, from *)
(* their initial states: every action of one must be possible for the      *)
(* other, and time must be allowed to pass for both or for neither.  The   *)
(* actions on which a system never moves need not be among the other's.    *)
(* An input that a system does not react to is taken to be ignored, as it  *)
(* is in every component.                                                  *)
(* For deterministic systems no bad pair is reachable exactly when the two *)
(* are bisimilar.  A case in which one of the systems can move in two ways *)
(* is reported as ambiguous and not judged.                                *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, l, r, v
vars == <<i, l, r, v>>
C == Cases[i]
L == Sys[i][1]
R == Sys[i][2]

Init == /\ i \in DOMAIN Cases
        /\ l = InitLoc(Cases[i], Sys[i][1])
        /\ r = InitLoc(Cases[i], Sys[i][2])
        /\ v = Zero(Cases[i])

Reacts(t, a, x) ==
    LET ms == IF a \in Actions(t) THEN Moves(C, t, x, a, v) ELSE {}
    IN  IF ms = {} /\ a \in L.in \cup R.in /\ a \notin t.out /\ Inv(C, t, x, v) THEN {<<x, <<>>, {}>>} ELSE ms
LMoves(a) == Reacts(L, a, l)
RMoves(a) == Reacts(R, a, r)
All == Actions(L) \cup Actions(R)
Ends(ms) == {<<m[1], Assign(C, v, m[2])>> : m \in ms}

Later == Succ(C, v)
Here == Inv(C, L, l, v) /\ Inv(C, R, r, v)
Bad == (IF Inv(C, L, l, v) = Inv(C, R, r, v) THEN {} ELSE {<<"start", "">>})
       \cup {<<"action", a>> : a \in {b \in All : (LMoves(b) = {}) # (RMoves(b) = {})}}
       \cup {<<"sort", a>> : a \in {b \in All : /\ LMoves(b) # {} /\ RMoves(b) # {}
                                               /\ (b \in L.out) # (b \in R.out)}}
       \cup (IF Here /\ Inv(C, L, l, Later) # Inv(C, R, r, Later) THEN {<<"delay", "">>} ELSE {})
Ambiguous == {a \in All : Cardinality(Ends(LMoves(a))) > 1 \/ Cardinality(Ends(RMoves(a))) > 1}

Act == \E a \in All : \E m \in LMoves(a) : \E n \in RMoves(a) :
          /\ l' = m[1] /\ r' = n[1]
          /\ v' = After(C, v, m[2] \o n[2])
          /\ i' = i
Delay == /\ Inv(C, L, l, Later) /\ v' = Later /\ UNCHANGED <<i, l, r>>
Next == LET b == Bad
            z == Ambiguous
        IN IF b = {} /\ z = {} THEN Here /\ (Act \/ Delay)
           ELSE /\ PrintT("CASE " \o ToJson([c |-> i, l |-> Name(C, L, l), r |-> Name(C, R, r), v |-> v, b |-> b, z |-> z]))
                /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* What the initial states are judged by.                                   *)
Started == v = Zero(C) \/ (Inv(C, L, l, v) /\ Inv(C, R, r, v))
===============================================================================
