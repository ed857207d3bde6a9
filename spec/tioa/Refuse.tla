-------------------------------- MODULE Refuse --------------------------------
(***************************************************************************)
(* Which system descriptions are refused for their actions, and why.  A    *)
(* case is one system, or two whose refinement is asked for.  Each reason  *)
(* is <<kind, left, right>>: `left` and `right` are <<leaves, input?,      *)
(* actions>>, the two action sets that must be disjoint or nested and are  *)
(* not, together with the operands that have them.                         *)
(***************************************************************************)
EXTENDS Tioa
VARIABLE i

RECURSIVE Leaf(_)
Leaf(t) == IF t.op = "c" THEN <<t.k>> ELSE Leaf(t.l) \o Leaf(t.r)
In(t) == <<Leaf(t), TRUE, t.in>>
Out(t) == <<Leaf(t), FALSE, t.out>>
Disjoint(x, y) == IF x[3] \cap y[3] = {} THEN {} ELSE {<<"disjoint", x, y>>}
Subset(x, y) == IF x[3] \subseteq y[3] THEN {} ELSE {<<"subset", x, y>>}

Own(t) ==
    CASE t.op = "c" -> Disjoint(In(t), Out(t))
      [] t.op = "||" -> Disjoint(Out(t.l), Out(t.r))
      [] t.op = "&&" -> Disjoint(In(t.l), Out(t.r)) \cup Disjoint(Out(t.l), In(t.r))
      [] t.op = "//" -> Disjoint(Out(t.r), In(t.l))
(* The reasons at the innermost places: an operator is only looked at when *)
(* its operands are in order.                                              *)
RECURSIVE Reasons(_)
Reasons(t) == IF t.op = "c" THEN Own(t)
              ELSE LET below == Reasons(t.l) \cup Reasons(t.r)
                   IN IF below # {} THEN below ELSE Own(t)

Compare(x, y) == Disjoint(In(x), Out(y)) \cup Disjoint(In(y), Out(x))
                 \cup Subset(In(x), In(y)) \cup Subset(Out(y), Out(x))
Systems(k) == UNION {Reasons(Sys[k][s]) : s \in DOMAIN Sys[k]}
Query(k) == IF Len(Sys[k]) = 2 /\ Systems(k) = {} THEN Compare(Sys[k][1], Sys[k][2]) ELSE {}

Init == i \in DOMAIN Cases
Spec == Init /\ [][FALSE]_i

(* What is accepted has inputs and outputs apart, at every place.           *)
RECURSIVE Apart(_)
Apart(t) == t.in \cap t.out = {} /\ (t.op # "c" => Apart(t.l) /\ Apart(t.r))
Sound == \A s \in DOMAIN Sys[i] : Reasons(Sys[i][s]) = {} => Apart(Sys[i][s])
Emit == PrintT("CASE " \o ToJson([c |-> i, m |-> Systems(i), q |-> Query(i)]))
===============================================================================
