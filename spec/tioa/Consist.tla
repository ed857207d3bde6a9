------------------------------- MODULE Consist -------------------------------
(***************************************************************************)
(* Consistency: can the first system of a case be kept from getting stuck, *)
(* whatever inputs it gets?  The specification first collects the states   *)
(* that can occur and then takes away, again and again, the states that    *)
(* cannot be saved: an input may lead to a state taken away, or time       *)
(* cannot pass and no output leads to a state that is left.  What remains  *)
(* is the greatest set of states that can be kept up.                      *)
(***************************************************************************)
EXTENDS Tioa
VARIABLES i, all, front, good, stuck, phase
vars == <<i, all, front, good, stuck, phase>>
C == Cases[i]
T == Sys[i][1]

Start(c, t) == <<InitLoc(c, t), Zero(c)>>
HasStart(c, t) == Inv(c, t, InitLoc(c, t), Zero(c))
(* Where time leads: nothing when the invariant ends. *)
Wait(c, t, x) == LET w == Succ(c, x[2]) IN {<<x[1], z>> : z \in {y \in {w} : Inv(c, t, x[1], y)}}
By(c, t, x, a) == {<<m[1], After(c, x[2], m[2])>> : m \in Moves(c, t, x[1], a, x[2])}
Succs(c, t, x) == Wait(c, t, x) \cup UNION {By(c, t, x, a) : a \in Actions(t)}
Outputs(c, t, x) == UNION {By(c, t, x, a) : a \in t.out}
Inputs(c, t, x) == UNION {By(c, t, x, a) : a \in t.in}

(* Inconsistent locations count as stuck, whatever else they allow; from a *)
(* universal one anything can follow.                                      *)
Kind(c, t, x) == IF t.op = "c" THEN c.comps[t.k].kind[x[1][2]] ELSE "n"

Init == /\ i \in DOMAIN Cases
        /\ all = {x \in {Start(Cases[i], Sys[i][1])} : HasStart(Cases[i], Sys[i][1])}
        /\ front = all
        /\ good = {} /\ stuck = 0 /\ phase = "collect"

Collect == /\ phase = "collect" /\ front # {}
           /\ front' = TLCEval(UNION {Succs(C, T, x) : x \in front} \ all)
           /\ all' = all \cup front'
           /\ UNCHANGED <<i, good, stuck, phase>>
Turn == /\ phase = "collect" /\ front = {}
        /\ phase' = "solve" /\ good' = all
        /\ stuck' = Cardinality({x \in all : \/ Kind(C, T, x) = "i"
                                             \/ Wait(C, T, x) = {} /\ Outputs(C, T, x) = {}})
        /\ UNCHANGED <<i, all, front>>
Kept(x) == /\ Kind(C, T, x) # "i"
           /\ Inputs(C, T, x) \subseteq good
           /\ \/ Wait(C, T, x) \cap good # {}
              \/ Outputs(C, T, x) \cap good # {}
Solve == /\ phase = "solve"
         /\ LET g == TLCEval({x \in good : Kept(x)})
            IN  /\ good' = g
                /\ phase' = IF g = good THEN "done" ELSE "solve"
         /\ UNCHANGED <<i, all, front, stuck>>
Next == Collect \/ Turn \/ Solve
Spec == Init /\ [][Next]_vars

Consistent == HasStart(C, T) /\ Start(C, T) \in good
(* Nothing stuck: nothing to prune. *)
Sane == phase = "done" => ((stuck = 0 /\ all # {}) => (good = all /\ Consistent))
LostLocs == {Name(C, T, x[1]) : x \in all \ good}
Emit == phase # "done" \/ PrintT("CASE " \o ToJson([c |-> i, ok |-> Consistent, stuck |-> stuck, n |-> Cardinality(all),
                                                    lost |-> LostLocs]))
===============================================================================
