-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The server's memory of models.  A request of user u carries a hash h    *)
(* and the components themselves, here numbered by their content m.  The   *)
(* server may answer from what it remembers of u under h, or take what the *)
(* request brings; it keeps one model for each user and may forget any.    *)
(* Hash 0 is never kept.                                                   *)
(*                                                                         *)
(* A request is handled in two atomic steps, so that requests can overlap: *)
(* Look (find the user's model) and, if that did not find it, Store.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
None == <<0, 0>>

(* What a user's entry may be after a request with hash h and content m    *)
(* looked it up, and the model that was found (or None if it was not).     *)
Looks(entry, h) ==
    (IF h # 0 /\ entry[1] = h THEN {[entry |-> entry, found |-> entry]} ELSE {})
    \cup {[entry |-> IF h # 0 /\ entry[1] = h THEN None ELSE entry, found |-> None]}
Stored(entry, h, m) == IF h = 0 THEN entry ELSE <<h, m>>
==============================================================================
