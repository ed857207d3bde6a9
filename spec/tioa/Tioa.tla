-------------------------------- MODULE Tioa --------------------------------
(***************************************************************************)
(* Timed I/O automata and the operators on them, over the clock regions.   *)
(*                                                                         *)
(* A case (one line of the file named by the environment variable CASES)   *)
(* holds component instances and system expressions over them.  Clocks are *)
(* numbered 1..n over the whole case.  A valuation is kept as the region's *)
(* canonical point, scaled by D = n + 1: clock i has the value v[i] / D,   *)
(* the fractional parts that occur are 1/D, 2/D, ... without gaps, and a   *)
(* clock above the largest constant max[i] it is compared with is held at  *)
(* max[i] + 1 and plays no further part in the order of the fractions.     *)
(* For guards without clock differences two valuations of one region have  *)
(* the same futures, so that exploring the canonical points covers every   *)
(* real-valued behaviour.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

ToSet(s) == {s[i] : i \in DOMAIN s}

----------------------------------------------------------------------------
(* Constraints: a list (or) of lists (and) of atoms <<i, j, strict, c>>,   *)
(* meaning x_i - x_j < c or <= c, where x_0 = 0.                           *)

Val(v, i) == IF i = 0 THEN 0 ELSE v[i]
SatAtom(D, a, v) == LET d == Val(v, a[1]) - Val(v, a[2])
                    IN  IF a[3] THEN d < a[4] * D ELSE d <= a[4] * D
Sat(D, g, v) == \E k \in DOMAIN g : \A m \in DOMAIN g[k] : SatAtom(D, g[k][m], v)

(* Regions *)
Dof(c) == c.n + 1
Top(c, i) == (c.max[i] + 1) * Dof(c)
Active(c, v) == {i \in 1..c.n : v[i] # Top(c, i)}
Frac(c, v, i) == v[i] % Dof(c)
Whole(c, v, i) == v[i] \div Dof(c)

(* Renumber the fractional parts 1, 2, ... in their order. *)
Canon(c, v) ==
    LET act == Active(c, v)
        fs == {Frac(c, v, i) : i \in act} \ {0}
        rank(f) == IF f = 0 THEN 0 ELSE Cardinality({g \in fs : g <= f})
    IN  [i \in 1..c.n |-> IF i \in act THEN Whole(c, v, i) * Dof(c) + rank(Frac(c, v, i)) ELSE v[i]]

(* The next region that time passes into. *)
Succ(c, v) ==
    LET act == Active(c, v)
        zero == {i \in act : Frac(c, v, i) = 0}
        leave == {i \in zero : Whole(c, v, i) = c.max[i]}
        rise == zero \ leave
        fs == {Frac(c, v, i) : i \in act}
        hi == CHOOSE f \in fs : \A g \in fs : g <= f
        shift == IF rise = {} THEN 0 ELSE 1
    IN  IF act = {} THEN v
        ELSE IF zero # {}
             THEN [i \in 1..c.n |->
                     IF i \in leave THEN Top(c, i)
                     ELSE IF i \in rise THEN v[i] + 1
                     ELSE IF i \in act THEN v[i] + shift ELSE v[i]]
             ELSE [i \in 1..c.n |->
                     IF i \in act /\ Frac(c, v, i) = hi THEN (Whole(c, v, i) + 1) * Dof(c) ELSE v[i]]

Zero(c) == [i \in 1..c.n |-> 0]

(* The point after the assignments u, a list of <<clock, value>>.  Later    *)
(* assignments win.                                                         *)
Assign(c, v, u) ==
    [i \in 1..c.n |->
        LET ks == {k \in DOMAIN u : u[k][1] = i}
        IN  IF ks = {} THEN v[i]
            ELSE u[CHOOSE k \in ks : \A m \in ks : m <= k][2] * Dof(c)]
After(c, v, u) == IF u = <<>> THEN v ELSE Canon(c, Assign(c, v, u))

----------------------------------------------------------------------------
(* Action sets of a system expression                                       *)
RECURSIVE Ins(_, _), Outs(_, _)
Outs(c, t) ==
    CASE t.op = "c" -> ToSet(c.comps[t.k].outputs)
      [] t.op = "||" -> Outs(c, t.l) \cup Outs(c, t.r)
      [] t.op = "&&" -> Outs(c, t.l) \cap Outs(c, t.r)
      [] t.op = "//" -> (Outs(c, t.l) \ Outs(c, t.r)) \cup (Ins(c, t.r) \ Ins(c, t.l))
Ins(c, t) ==
    CASE t.op = "c" -> ToSet(c.comps[t.k].inputs)
      [] t.op = "||" -> (Ins(c, t.l) \ Outs(c, t.r)) \cup (Ins(c, t.r) \ Outs(c, t.l))
      [] t.op = "&&" -> Ins(c, t.l) \cap Ins(c, t.r)
      [] t.op = "//" -> Ins(c, t.l) \cup Outs(c, t.r) \cup {t.new}
Acts(c, t) == Ins(c, t) \cup Outs(c, t)

(* The expression with its action sets written at every node.               *)
RECURSIVE Annot(_, _)
Annot(c, t) ==
    LET s == [in |-> Ins(c, t), out |-> Outs(c, t)]
    IN  IF t.op = "c" THEN [op |-> "c", k |-> t.k, in |-> s.in, out |-> s.out]
        ELSE IF t.op = "//"
        THEN [op |-> t.op, l |-> Annot(c, t.l), r |-> Annot(c, t.r), in |-> s.in, out |-> s.out,
              new |-> t.new, q |-> t.q]
        ELSE [op |-> t.op, l |-> Annot(c, t.l), r |-> Annot(c, t.r), in |-> s.in, out |-> s.out]

(* Every system expression of every case, annotated; computed once.         *)
Sys == [i \in DOMAIN Cases |-> [s \in DOMAIN Cases[i].sys |-> Annot(Cases[i], Cases[i].sys[s])]]

Actions(t) == t.in \cup t.out

----------------------------------------------------------------------------
(* Locations: <<"c", l>>, <<"n", left, right>>, <<"u">> (universal) and     *)
(* <<"e">> (error).                                                         *)
RECURSIVE InitLoc(_, _)
InitLoc(c, t) == IF t.op = "c" THEN <<"c", c.comps[t.k].init>>
                 ELSE <<"n", InitLoc(c, t.l), InitLoc(c, t.r)>>

CInv(c, k, l, v) == Sat(Dof(c), c.comps[k].inv[l], v)

(* The invariant of a location of a system.                                 *)
RECURSIVE Inv(_, _, _, _)
Inv(c, t, ls, v) ==
    IF ls[1] = "u" THEN TRUE
    ELSE IF ls[1] = "e" THEN v[t.q] = 0
    ELSE CASE t.op = "c" -> CInv(c, t.k, ls[2], v)
           [] t.op \in {"||", "&&"} -> Inv(c, t.l, ls[2], v) /\ Inv(c, t.r, ls[3], v)
           [] t.op = "//" -> TRUE

(* The edges of component k that can be taken in location l at the point v: *)
(* the source's invariant and the guard hold, and the target's invariant    *)
(* holds after the assignments.                                             *)
CEdges(c, k, l, a, v) ==
    {e \in DOMAIN c.comps[k].edges :
        LET ed == c.comps[k].edges[e]
        IN  /\ ed.s = l /\ ed.a = a
            /\ Sat(Dof(c), ed.g, v)
            /\ CInv(c, k, ed.t, Assign(c, v, ed.u))}

(* A move is <<target, assignments, edges>>, the edges being the pairs      *)
(* <<component, edge>> that are taken; edge 0 is the ignored input.         *)
(* The moves of a component: an input that no edge takes is ignored.  In a  *)
(* universal location everything is possible and nothing changes; in an     *)
(* inconsistent one every input is ignored.                                 *)
CMoves(c, k, l, a, v) ==
    IF ~CInv(c, k, l, v) THEN {}
    ELSE IF c.comps[k].kind[l] = "u" \/ (c.comps[k].kind[l] = "i" /\ a \in ToSet(c.comps[k].inputs))
    THEN {<<<<"c", l>>, <<>>, {}>>}
    ELSE LET es == CEdges(c, k, l, a, v)
         IN  IF es # {} THEN {<<<<"c", c.comps[k].edges[e].t>>, c.comps[k].edges[e].u, {<<k, e>>}>> : e \in es}
             ELSE IF a \in ToSet(c.comps[k].inputs) THEN {<<<<"c", l>>, <<>>, {<<k, 0>>}>>} ELSE {}

RECURSIVE Moves(_, _, _, _, _)
Moves(c, t, ls, a, v) ==
    IF ls[1] = "u" THEN {<<ls, <<>>, {}>>}
    ELSE IF ls[1] = "e" THEN (IF a \in t.in /\ v[t.q] = 0 THEN {<<ls, <<>>, {}>>} ELSE {})
    ELSE IF t.op = "c" THEN CMoves(c, t.k, ls[2], a, v)
    ELSE
    LET al == Actions(t.l)
        ar == Actions(t.r)
        ml == IF a \in al THEN Moves(c, t.l, ls[2], a, v) ELSE {}
        mr == IF a \in ar THEN Moves(c, t.r, ls[3], a, v) ELSE {}
        both == {<<<<"n", p[1][1], p[2][1]>>, p[1][2] \o p[2][2], p[1][3] \cup p[2][3]>> : p \in ml \X mr}
        left == {<<<<"n", m[1], ls[3]>>, m[2], m[3]>> : m \in ml}
        right == {<<<<"n", ls[2], m[1]>>, m[2], m[3]>> : m \in mr}
    IN
    CASE t.op = "&&" -> both
      [] t.op = "||" ->
           IF a \in al /\ a \in ar THEN both
           ELSE IF a \in al THEN (IF Inv(c, t.r, ls[3], v) THEN left ELSE {})
           ELSE (IF Inv(c, t.l, ls[2], v) THEN right ELSE {})
      [] t.op = "//" ->
           LET it == Inv(c, t.l, ls[2], v)
               is == Inv(c, t.r, ls[3], v)
               zap == <<<<t.q, 0>>>>
           IN  (IF a \in al /\ a \in ar THEN both
                ELSE IF a \in ar THEN right
                ELSE IF a \in al /\ is THEN left ELSE {})
               \cup (IF ~is \/ (a \in t.r.out /\ mr = {}) THEN {<<<<"u">>, <<>>, {}>>} ELSE {})
               \cup (IF a \in t.r.out /\ a \in t.l.out /\ mr # {} /\ ml = {} THEN {<<<<"e">>, zap, {}>>} ELSE {})
               \cup (IF a = t.new /\ is /\ ~it THEN {<<<<"e">>, zap, {}>>} ELSE {})

(* The names of a location, for people and for the replay.                  *)
RECURSIVE Name(_, _, _)
Name(c, t, ls) ==
    IF ls[1] \in {"u", "e"} THEN ls
    ELSE IF t.op = "c" THEN <<"c", c.comps[t.k].names[ls[2]]>>
    ELSE <<"n", Name(c, t.l, ls[2]), Name(c, t.r, ls[3])>>
=============================================================================
