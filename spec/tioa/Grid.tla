--------------------------------- MODULE Grid ---------------------------------
(***************************************************************************)
(* The moves of the systems of every case in all their locations and at    *)
(* every point of a grid, reachable or not; here guards and invariants may *)
(* compare clocks.  Each is printed for the replay into the code.          *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, ls, v
C == Cases[i]
T == Sys[i][1]

RECURSIVE Locs(_, _)
Locs(c, t) == IF t.op = "c" THEN {<<"c", n>> : n \in DOMAIN c.comps[t.k].names}
              ELSE {<<"n", a, b>> : a \in Locs(c, t.l), b \in Locs(c, t.r)}
              \cup (IF t.op = "//" THEN {<<"u">>, <<"e">>} ELSE {})
Init == /\ i \in DOMAIN Cases
        /\ ls \in Locs(Cases[i], Sys[i][1])
        /\ v \in [1..Cases[i].n -> 0..((1 + Cases[i].top) * Dof(Cases[i]))]
Next == UNCHANGED <<i, ls, v>>
Spec == Init /\ [][Next]_<<i, ls, v>>

Ok == Inv(C, T, ls, v)
MoveSet == IF ~Ok THEN {} ELSE
           UNION {{<<a, Name(C, T, m[1]), Assign(C, v, m[2])>> : m \in Moves(C, T, ls, a, v)} : a \in Actions(T)}
Emit == PrintT("CASE " \o ToJson([c |-> i, s |-> 1, l |-> Name(C, T, ls), v |-> v, ok |-> Ok, m |-> MoveSet]))

(* Inside the invariant every input is possible, at most one way when the   *)
(* component is deterministic, and the ignored input changes nothing.       *)
InputEnabled == (T.op = "c" /\ Ok) =>
    \A a \in T.in : LET ms == Moves(C, T, ls, a, v) IN
       /\ ms # {}
       /\ \A m \in ms : (\E e \in m[3] : e[2] = 0) => (m[1] = ls /\ m[2] = <<>> /\ ms = {m})
===============================================================================
