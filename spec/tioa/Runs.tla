--------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* Start and target states of questions about runs.  A case has, besides   *)
(* the system, `from` (the sequence of locations of the components and a   *)
(* constraint, or an empty sequence for the initial state) and `to`, the   *)
(* same with location 0 for any.                                           *)
(***************************************************************************)
EXTENDS Tioa

(* Whether a system's location has the components in the wanted locations. *)
RECURSIVE Leaves(_), Matches(_, _, _)
Leaves(t) == IF t.op = "c" THEN {t.k} ELSE Leaves(t.l) \cup Leaves(t.r)
Matches(t, ls, want) ==
    IF ls[1] \in {"u", "e"} THEN \A j \in Leaves(t) : want[j] = 0
    ELSE IF t.op = "c" THEN want[t.k] \in {0, ls[2]}
    ELSE Matches(t.l, ls[2], want) /\ Matches(t.r, ls[3], want)

RECURSIVE At(_, _)
At(t, want) == IF t.op = "c" THEN <<"c", want[t.k]>> ELSE <<"n", At(t.l, want), At(t.r, want)>>

(* All canonical points of a case's clocks. *)
AllPoints(c) == {Canon(c, f) : f \in [1..c.n -> 0..((1 + CHOOSE m \in ToSet(c.max) : \A o \in ToSet(c.max) : o <= m) * Dof(c))]}
Points(c) == IF c.n = 0 THEN {Zero(c)}
             ELSE {p \in AllPoints(c) : \A x \in 1..c.n : p[x] = Top(c, x) \/ p[x] <= c.max[x] * Dof(c)}

Starts(c, t) ==
    IF c.from = <<>>
    THEN LET ls == InitLoc(c, t) IN {<<ls, v>> : v \in {w \in {Zero(c)} : Inv(c, t, ls, w)}}
    ELSE LET ls == At(t, c.from[1])
         IN  {<<ls, v>> : v \in {w \in Points(c) : Inv(c, t, ls, w) /\ Sat(Dof(c), c.from[2], w)}}

Goal(c, t, x) == Matches(t, x[1], c.to[1]) /\ Sat(Dof(c), c.to[2], x[2])

(* The edges of a recorded decision.  A quotient's moves to the universal   *)
(* and to the error location are no edges of the components: for them the   *)
(* implementation names the edges that the move is there because of.        *)
EdgesOf(d) == IF d.dst[1] \in {"u", "e"} THEN {} ELSE ToSet(d.edges)

(* The states that time passes through. *)
RECURSIVE Later(_, _, _, _)
Later(c, t, ls, v) ==
    LET w == Succ(c, v)
    IN  {v} \cup (IF w = v \/ ~Inv(c, t, ls, w) THEN {} ELSE Later(c, t, ls, w))
Close(c, t, xs) == UNION {{<<x[1], w>> : w \in Later(c, t, x[1], x[2])} : x \in xs}
===============================================================================
