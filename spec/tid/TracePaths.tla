---------------------------- MODULE TracePaths ----------------------------
(* A system of components takes transitions.  Next to the path of transition  *)
(* ids the model keeps, as history, which edges every single component took   *)
(* in every step.  The point of the ids is that the histories can be got back *)
(* from the path alone: SplitsBack.                                           *)
EXTENDS TransitionIds, Json, IOUtils
CONSTANTS MaxComps,   \* size of the systems
          MaxLen,     \* length of the paths
          Wide,       \* quotients may use two transitions of an operand
          Foreign     \* the last transition may be one of another system

VARIABLES shape, path, hist, foreign
vars == <<shape, path, hist, foreign>>

\* the edge component c takes in step t, as number v of the transitions used there
Name(c, t, v) == "e" \o ToString(c) \o "t" \o ToString(t) \o v

\* Moves(s, c, t, v): the ids a transition of s can have, where the first component
\* of s is component c, paired with what every component of s does.
RECURSIVE Moves(_, _, _, _)
Join(o, a, b) == [id |-> Node(o, <<a.id>>, <<b.id>>), did |-> a.did \o b.did]
Uses(s, c, t, v) ==   \* what a quotient uses of its operand s: a list of transitions
  LET one == { [ids |-> <<m.id>>, did |-> m.did] : m \in Moves(s, c, t, v \o "p") }
      two == { [ids |-> <<m.id, m2.id>>, did |-> [i \in 1..Len(m.did) |-> m.did[i] \o m2.did[i]]] :
                 m \in Moves(s, c, t, v \o "p"), m2 \in Moves(s, c, t, v \o "q") }
      \* (an id does not say how many components an unused operand has, only
      \*  single components can be left out)
      none == IF s.k = "L" THEN { [ids |-> <<>>, did |-> << <<>> >>] } ELSE {}
  IN one \union none \union (IF Wide THEN two ELSE {})
Moves(s, c, t, v) ==
  CASE s.k = "L" -> { [id |-> Edge(Name(c, t, v)), did |-> << <<Edge(Name(c, t, v))>> >>],
                      [id |-> NoEdge, did |-> << <<>> >>] }
    [] s.k = "Q" -> { [id |-> Node("Q", a.ids, b.ids), did |-> a.did \o b.did] :
                        a \in Uses(s.l[1], c, t, v),
                        b \in Uses(s.r[1], c + Comps(s.l[1]), t, v) }
    [] OTHER     -> { Join(s.k, a, b) : a \in Moves(s.l[1], c, t, v),
                                        b \in Moves(s.r[1], c + Comps(s.l[1]), t, v) }

RECURSIVE Plain(_, _)
Plain(s, c) == IF s.k = "L" THEN Edge(Name(c, 9, "f"))
               ELSE Node(s.k, <<Plain(s.l[1], c)>>, <<Plain(s.r[1], c + Comps(s.l[1]))>>)

Init == /\ shape \in UNION { Shapes(n) : n \in 1..MaxComps }
        /\ path = <<>>
        /\ hist = [c \in 1..Comps(shape) |-> <<>>]
        /\ foreign = FALSE

Step == /\ Len(path) < MaxLen /\ ~foreign
        /\ \E m \in Moves(shape, 1, Len(path) + 1, "") :
             /\ path' = Append(path, m.id)
             /\ hist' = [c \in 1..Comps(shape) |-> Append(hist[c], m.did[c])]
        /\ UNCHANGED <<shape, foreign>>

\* a transition that some other system took ends up in the path, at any place
Intrude == /\ Foreign /\ path # <<>> /\ ~foreign
           /\ \E n \in (1..MaxComps) \ {Comps(shape)} : \E s \in Shapes(n) :
              \E i \in 1..(Len(path) + 1) :
                \E id \in {Plain(s, 1)} \union (IF n = 1 THEN {NoEdge} ELSE {}) :
                  path' = SubSeq(path, 1, i - 1) \o <<id>> \o SubSeq(path, i, Len(path))
           /\ foreign' = TRUE
           /\ UNCHANGED <<shape, hist>>
Next == Step \/ Intrude
Spec == Init /\ [][Next]_vars

WellFormed == \A i \in 1..Len(path) : EvenWidth(path[i])
\* one slot per component of the system, and exactly the edges each of them took
LeavesPerComponent ==
  ~foreign => \A i \in 1..Len(path) :
    /\ Len(Leaves(path[i])) = Comps(shape)
    /\ \A c \in 1..Comps(shape) : SelectSeq(Leaves(path[i])[c], IsEdge) = hist[c][i]
SplitsBack == (~foreign /\ path # <<>>) => Split(path) = Ok(hist)
\* a path that is not one system's is refused as a whole
NeverMixed == foreign => Split(path) = Refused
\* one line per state for the replay into the real code
Emit == PrintT("CASE " \o ToJson([path |-> path, want |-> Answers(path)]))
=============================================================================
