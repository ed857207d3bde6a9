--------------------------- MODULE TransitionIds ---------------------------
(* What a transition id says about the transition it was made from.           *)
(*                                                                            *)
(* A system is a tree of components joined by conjunction, composition and    *)
(* quotient.  Every transition of the system carries an id of the same form   *)
(* as the system: an edge (or no edge) for every component.  A quotient can   *)
(* use several transitions of an operand at once, or none, so its two sides   *)
(* are lists.                                                                 *)
(*                                                                            *)
(*   id   == [k, n, l, r]     k: "E" edge named n | "N" no edge               *)
(*                               "J" conjunction | "P" composition (one child *)
(*                                in l, one in r) | "Q" quotient (l, r lists) *)
(*   shape == [k, l, r]       k: "L" a component | "J" | "P" | "Q"            *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Edge(n)   == [k |-> "E", n |-> n,  l |-> <<>>,  r |-> <<>>]
NoEdge    == [k |-> "N", n |-> "", l |-> <<>>,  r |-> <<>>]
Node(o, l, r) == [k |-> o, n |-> "", l |-> l, r |-> r]

(***************************************************************************)
(* The components an id speaks of.  An operand of which a quotient used no *)
(* transition still has its place among the components.                    *)
(***************************************************************************)
RECURSIVE Width(_)
SideWidth(side) == IF side = <<>> THEN 1 ELSE Width(side[1])
Width(id) == IF id.k \in {"E", "N"} THEN 1 ELSE SideWidth(id.l) + SideWidth(id.r)

RECURSIVE EvenWidth(_)
\* all transitions on one side of a quotient come from the same operand
EvenWidth(id) ==
  \/ id.k \in {"E", "N"}
  \/ /\ \A side \in {id.l, id.r} :
          /\ \A i \in 1..Len(side) : EvenWidth(side[i])
          /\ \A i \in 1..Len(side) : Width(side[i]) = SideWidth(side)

(***************************************************************************)
(* Leaves(id)[c]: the edges of component c, in the order the id has them.  *)
(***************************************************************************)
RECURSIVE Leaves(_)
SideLeaves(side) ==
  LET leaves == TLCEval([i \in 1..Len(side) |-> Leaves(side[i])])
  IN TLCEval([c \in 1..SideWidth(side) |->
               FlattenSeq([i \in 1..Len(side) |-> leaves[i][c]])])
Leaves(id) ==
  IF id.k \in {"E", "N"} THEN << <<id>> >>
  ELSE SideLeaves(id.l) \o SideLeaves(id.r)

(***************************************************************************)
(* Splitting a path (a sequence of ids) into one path per component.       *)
(***************************************************************************)
IsEdge(id) == id.k # "N"
Splittable(path) == \A i \in 1..Len(path) : Width(path[i]) = Width(path[1])
Ok(v)   == [res |-> "ok", v |-> v]
Refused == [res |-> "err", v |-> <<>>]
Split(path) ==
  IF path = <<>> THEN Ok(<<>>)
  ELSE IF ~Splittable(path) THEN Refused
  ELSE LET leaves == TLCEval([i \in 1..Len(path) |-> Leaves(path[i])])
       IN Ok([c \in 1..Len(leaves[1]) |->
               [i \in 1..Len(path) |-> SelectSeq(leaves[i][c], IsEdge)]])

(***************************************************************************)
(* The text of an id: edges by name, && || \\ between the operands, and    *)
(* parentheses around every operand that is neither a single edge nor      *)
(* another operand of the same (associative) operator.                     *)
(***************************************************************************)
OpText == [J |-> "&&", P |-> "||", Q |-> "\\\\"]
RECURSIVE Show(_)
Bare(op, child) == child.k = "E" \/ (op # "Q" /\ child.k = op)
Wrapped(op, child) == IF Bare(op, child) THEN Show(child) ELSE "(" \o Show(child) \o ")"
RECURSIVE Cat(_)
Cat(texts) == IF texts = <<>> THEN "" ELSE Head(texts) \o Cat(Tail(texts))
ShowSide(op, side) == Cat([i \in 1..Len(side) |-> Wrapped(op, side[i])])
Show(id) ==
  CASE id.k = "E" -> id.n
    [] id.k = "N" -> "NoID"
    [] OTHER -> ShowSide(id.k, id.l) \o OpText[id.k] \o ShowSide(id.k, id.r)

(***************************************************************************)
(* Systems and the ids their transitions can have.                         *)
(***************************************************************************)
Leaf == [k |-> "L", l |-> <<>>, r |-> <<>>]
RECURSIVE Shapes(_)
Shapes(n) == IF n = 1 THEN {Leaf}
             ELSE UNION { { [k |-> o, l |-> <<a>>, r |-> <<b>>] :
                              o \in {"J", "P", "Q"}, a \in Shapes(m), b \in Shapes(n - m) }
                          : m \in 1..(n - 1) }
RECURSIVE Comps(_)
Comps(s) == IF s.k = "L" THEN 1 ELSE Comps(s.l[1]) + Comps(s.r[1])
(* everything the code can be asked about a path *)
Answers(path) == [leaves |-> [i \in 1..Len(path) |-> Ok(Leaves(path[i]))],
                  show   |-> [i \in 1..Len(path) |-> Ok(Show(path[i]))],
                  split  |-> Split(path)]
=============================================================================
