-------------------------------- MODULE Blame --------------------------------
(***************************************************************************)
(* Does the report of a failing refinement name a real cause?  A case has, *)
(* besides the two systems, the report: `why` ("match" or "delay"), the    *)
(* pair of locations `l`, `r`, the action `a` and the zone `z`.  The       *)
(* specification looks through all the pairs of states for one to which    *)
(* the report applies; here it also goes on from bad pairs.                *)
(***************************************************************************)
EXTENDS Refine

(* From x time can pass further in the left system than in the right one.  *)
RECURSIVE Cut(_, _, _, _, _, _)
Cut(c, tl, tr, ll, rr, w) ==
    LET n == Succ(c, w)
    IN  IF ~Inv(c, tr, rr, w) THEN TRUE
        ELSE IF n = w \/ ~Inv(c, tl, ll, n) THEN FALSE ELSE Cut(c, tl, tr, ll, rr, n)

Rep == C.report
Unmatched(a) == \/ a \in L.out /\ LOut(a) # {} /\ ROut(a) = {}
                \/ a \in R.in /\ RIn(a) # {} /\ LIn(a) = {}
Leads(ms, ns) == \E m \in ms : \E n \in ns : Cut(C, L, R, m[1], n[1], After(C, v, m[2] \o n[2]))
Cuts(a) == \/ a = "" /\ l = InitLoc(C, L) /\ r = InitLoc(C, R) /\ Cut(C, L, R, l, r, v)
           \/ a \in L.out /\ Leads(LOut(a), ROut(a))
           \/ a \in R.in /\ Leads(LIn(a), RIn(a))
Exact == \A m \in 1..C.n : v[m] # Top(C, m)
Applies == /\ Name(C, L, l) = Rep.l /\ Name(C, R, r) = Rep.r
           /\ (Exact => Sat(Dof(C), Rep.z, v))
           /\ IF Rep.why = "match" THEN Unmatched(Rep.a) ELSE Cuts(Rep.a)

BNext == IF Applies THEN PrintT("CASE " \o ToJson([c |-> i, v |-> v])) /\ FALSE /\ UNCHANGED vars
         ELSE Act \/ Delay
BSpec == Init /\ [][BNext]_vars
===============================================================================
