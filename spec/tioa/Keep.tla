--------------------------------- MODULE Keep ---------------------------------
(***************************************************************************)
(* The states of the first system of a case that pruning is about.  From a *)
(* lost state an inconsistent location cannot be avoided, whatever inputs  *)
(* come; the others are printed as `avoid`.  Those of them from which the  *)
(* system can also be kept from getting stuck are printed as `keep`.       *)
(***************************************************************************)
EXTENDS Consist
VARIABLE avoid
kvars == <<i, all, front, good, stuck, phase, avoid>>

Lost(x) == x[1][1] = "e" \/ Kind(C, T, x) = "i"
Ends(x) == Wait(C, T, x) = {} /\ Outputs(C, T, x) = {}
Avoids(x) == /\ ~Lost(x)
             /\ Inputs(C, T, x) \subseteq avoid
             /\ \/ Ends(x)
                \/ Wait(C, T, x) \cap avoid # {}
                \/ Outputs(C, T, x) \cap avoid # {}

KInit == Init /\ avoid = {}
KNext == \/ Collect /\ UNCHANGED avoid
         \/ Turn /\ avoid' = all
         \/ /\ phase = "solve"
            /\ LET g == TLCEval({x \in good : Kept(x)})
                   h == TLCEval({x \in avoid : Avoids(x)})
               IN  /\ good' = g /\ avoid' = h
                   /\ phase' = IF g = good /\ h = avoid THEN "done" ELSE "solve"
            /\ UNCHANGED <<i, all, front, stuck>>
KSpec == KInit /\ [][KNext]_kvars

(* What can be kept up avoids what is lost. *)
Within == phase = "done" => good \subseteq avoid
KEmit == phase # "done" \/ PrintT("CASE " \o ToJson([c |-> i, keep |-> good, avoid |-> avoid, all |-> Cardinality(all),
                                               kept |-> Start(C, T) \in good, avoids |-> Start(C, T) \in avoid]))
===============================================================================
