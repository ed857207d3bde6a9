-------------------------------- MODULE Path --------------------------------
(***************************************************************************)
(* Checks recorded paths (of reachability answers) against the system: a   *)
(* case is one of Reach with `path`, the recorded decisions, each          *)
(* [a, edges, src, dst, zs, zd]; the edges are pairs <<component, edge>>.  *)
(* The specification follows the decisions with the set of states that the *)
(* run can be in; the set must never become empty and must finally contain *)
(* a state that meets the target.                                          *)
(***************************************************************************)
EXTENDS Runs
VARIABLES i, j, at
vars == <<i, j, at>>
C == Cases[i]
T == Sys[i][1]

Init == /\ i \in DOMAIN Cases
        /\ j = 0
        /\ at = TLCEval(Close(Cases[i], Sys[i][1], Starts(Cases[i], Sys[i][1])))
D == C.path[j + 1]
(* The ways on that the next decision describes. *)
On(x) == {m \in Moves(C, T, x[1], D.a, x[2]) : m[3] = EdgesOf(D) /\ Name(C, T, m[1]) = D.dst}
From == {x \in at : Name(C, T, x[1]) = D.src /\ On(x) # {}}
Next == /\ j < Len(C.path)
        /\ j' = j + 1
        /\ at' = TLCEval(Close(C, T, UNION {{<<m[1], After(C, x[2], m[2])>> : m \in On(x)} : x \in From}))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

Done == j = Len(C.path)
Reached == \E x \in at : Goal(C, T, x)

(* The states reported around a decision cover the run: every state that   *)
(* the decision can be taken in, and that it can lead to, if no clock is   *)
(* beyond its largest constant.                                            *)
Exact(x) == \A m \in 1..C.n : x[2][m] # Top(C, m)
Covered(z, xs) == \A x \in xs : Exact(x) => Sat(Dof(C), z, x[2])

Why == IF at = {} THEN "no run takes this transition"
       ELSE IF Done /\ ~Reached THEN "it does not end in the target"
       ELSE IF ~Done /\ ~Covered(D.zs, From) THEN "the source state misses part of the run"
       ELSE IF j > 0 /\ ~Covered(C.path[j].zd, at) THEN "the destination state misses part of the run"
       ELSE ""
Emit == Why = "" \/ PrintT("CASE " \o ToJson([c |-> i, j |-> j, why |-> Why]))
=============================================================================
