--------------------------------- MODULE Prune ---------------------------------
(***************************************************************************)
(* A system and what was left of it by pruning, run together.  A case has, *)
(* besides the two, the number nt of clocks of the system (its clocks come *)
(* first) and the sets avoid and keep of its states that Keep.tla printed. *)
(* The pruned system must allow every step of the system between states of *)
(* keep, none that leaves avoid, and none that the system does not have.   *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, l, r, v
vars == <<i, l, r, v>>
C == Cases[i]
L == Sys[i][1]
R == Sys[i][2]

Keep == [k \in DOMAIN Cases |-> ToSet(Cases[k].keep)]
Avoid == [k \in DOMAIN Cases |-> ToSet(Cases[k].avoid)]

(* The system's part of a valuation, as its own canonical point.            *)
Part(c, w) ==
    LET own == 1..c.nt
        act == {j \in own : w[j] # Top(c, j)}
        fs == {Frac(c, w, j) : j \in act} \ {0}
        d == c.nt + 1
    IN  [j \in own |-> IF j \in act
                       THEN Whole(c, w, j) * d + (IF Frac(c, w, j) = 0 THEN 0
                                                  ELSE Cardinality({g \in fs : g <= Frac(c, w, j)}))
                       ELSE (c.max[j] + 1) * d]
State(c, x, w) == <<x, Part(c, w)>>

Init == /\ i \in DOMAIN Cases
        /\ l = InitLoc(Cases[i], Sys[i][1])
        /\ r = InitLoc(Cases[i], Sys[i][2])
        /\ v = Zero(Cases[i])

Reacts(t, a, x) ==
    LET ms == IF a \in Actions(t) THEN Moves(C, t, x, a, v) ELSE {}
    IN  IF ms = {} /\ a \in L.in \cup R.in /\ a \notin t.out /\ Inv(C, t, x, v) THEN {<<x, <<>>, {}>>} ELSE ms
LMoves(a) == Reacts(L, a, l)
RMoves(a) == Reacts(R, a, r)
All == Actions(L) \cup Actions(R)
Dest(m) == State(C, m[1], After(C, v, m[2]))

Later == Succ(C, v)
Here == Inv(C, L, l, v) /\ Inv(C, R, r, v)
Kept(s) == s \in Keep[i]
Avoids(s) == s \in Avoid[i]
Now == State(C, l, v)
Then == State(C, l, Later)

Bad == (IF Inv(C, R, r, v) => Inv(C, L, l, v) THEN {} ELSE {<<"start", "more">>})
       \cup (IF Kept(Now) => Inv(C, R, r, v) THEN {} ELSE {<<"start", "less">>})
       \cup {<<a, "more">> : a \in {b \in All : RMoves(b) # {} /\ LMoves(b) = {}}}
       \cup {<<a, "less">> : a \in {b \in All : /\ RMoves(b) = {} /\ Kept(Now)
                                               /\ \E m \in LMoves(b) : Kept(Dest(m))}}
       \cup {<<a, "lost">> : a \in {b \in All : /\ RMoves(b) # {} /\ Avoids(Now)
                                               /\ LMoves(b) # {} /\ \A m \in LMoves(b) : ~Avoids(Dest(m))}}
       \cup (IF Here /\ Inv(C, R, r, Later) /\ ~Inv(C, L, l, Later) THEN {<<"delay", "more">>} ELSE {})
       \cup (IF Here /\ Kept(Now) /\ Inv(C, L, l, Later) /\ Kept(Then) /\ ~Inv(C, R, r, Later) THEN {<<"delay", "less">>} ELSE {})
       \cup (IF Here /\ Avoids(Now) /\ Inv(C, R, r, Later) /\ Inv(C, L, l, Later) /\ ~Avoids(Then) THEN {<<"delay", "lost">>} ELSE {})
Ends(ms) == {<<m[1], Assign(C, v, m[2])>> : m \in ms}
Ambiguous == {a \in All : Cardinality(Ends(LMoves(a))) > 1 \/ Cardinality(Ends(RMoves(a))) > 1}

Act == \E a \in All : \E m \in LMoves(a) : \E n \in RMoves(a) :
          /\ l' = m[1] /\ r' = n[1]
          /\ v' = After(C, v, m[2] \o n[2])
          /\ i' = i
Delay == /\ Inv(C, L, l, Later) /\ Inv(C, R, r, Later) /\ v' = Later /\ UNCHANGED <<i, l, r>>
Next == LET b == Bad
            z == Ambiguous
        IN IF b = {} /\ z = {} THEN Here /\ (Act \/ Delay)
           ELSE /\ PrintT("CASE " \o ToJson([c |-> i, l |-> Name(C, L, l), r |-> Name(C, R, r), v |-> v, b |-> b, z |-> z,
                                             kept |-> Kept(Now), avoids |-> Avoids(Now)]))
                /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
===============================================================================
