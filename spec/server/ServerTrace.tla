----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Recorded requests to the real server, from one or several clients,      *)
(* explained by the specification.  A case (a line of the file CASES) has  *)
(* `reqs`, the requests [k, u, h, m, ans], and `events`, the numbers of the *)
(* requests in the order of their calls and returns: +r for the call of    *)
(* request r, -r for its return.                                           *)
(*   k = "model"   answered from a model; ans is the list of the models    *)
(*                 whose answer by a fresh server is the recorded one      *)
(*   k = "token"   ans is the token, in a list                             *)
(*   k = "bad"     ill-formed, but its components, if h is not 0, may be   *)
(*                 remembered                                              *)
(*   k = "other"   has nothing to do with the memory                       *)
(* A case is explained if all its events can be taken.                     *)
(***************************************************************************)
EXTENDS Cache, Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, n, entry, ph, found, given
vars == <<i, n, entry, ph, found, given>>
C == Cases[i]
ToSet(s) == {s[k] : k \in DOMAIN s}
Users == {C.reqs[r].u : r \in DOMAIN C.reqs}

Init == /\ i \in DOMAIN Cases
        /\ n = 0
        /\ entry = [u \in {Cases[i].reqs[r].u : r \in DOMAIN Cases[i].reqs} |-> None]
        /\ ph = [r \in DOMAIN Cases[i].reqs |-> "new"]
        /\ found = [r \in DOMAIN Cases[i].reqs |-> 0]
        /\ given = {}

E == C.events[n + 1]
Call == /\ n < Len(C.events) /\ E > 0
        /\ ph' = [ph EXCEPT ![E] = IF C.reqs[E].k \in {"model", "bad"} THEN "look" ELSE "done"]
        /\ n' = n + 1
        /\ UNCHANGED <<i, entry, found, given>>
Open == {r \in DOMAIN C.reqs : ph[r] \in {"look", "store"}}
Look(r) == /\ ph[r] = "look"
           /\ \E l \in Looks(entry[C.reqs[r].u], C.reqs[r].h) :
                 /\ entry' = [entry EXCEPT ![C.reqs[r].u] = l.entry]
                 /\ ph' = [ph EXCEPT ![r] = IF l.found = None THEN "store" ELSE "done"]
                 /\ found' = [found EXCEPT ![r] = l.found[2]]
           /\ UNCHANGED <<i, n, given>>
Store(r) == /\ ph[r] = "store"
            /\ entry' = [entry EXCEPT ![C.reqs[r].u] = Stored(@, C.reqs[r].h, C.reqs[r].m)]
            /\ ph' = [ph EXCEPT ![r] = "done"]
            /\ found' = [found EXCEPT ![r] = C.reqs[r].m]
            /\ UNCHANGED <<i, n, given>>
(* An ill-formed request may be refused before its components are kept.    *)
Refuse(r) == /\ C.reqs[r].k = "bad" /\ ph[r] \in {"look", "store"}
             /\ ph' = [ph EXCEPT ![r] = "done"]
             /\ UNCHANGED <<i, n, entry, found, given>>
Return == /\ n < Len(C.events) /\ E < 0
          /\ ph[-E] = "done"
          /\ LET r == C.reqs[-E]
             IN  /\ r.k = "model" => found[-E] \in ToSet(r.ans)
                 /\ r.k = "token" => r.ans[1] \notin given
                 /\ given' = IF r.k = "token" THEN given \cup {r.ans[1]} ELSE given
          /\ n' = n + 1
          /\ UNCHANGED <<i, entry, ph, found>>
Next == Call \/ Return \/ \E r \in Open : Look(r) \/ Store(r) \/ Refuse(r)
Spec == Init /\ [][Next]_vars
(* How far each case can be explained; the check takes the furthest.       *)
Emit == n < Len(C.events) \/ PrintT("CASE " \o ToJson([c |-> i]))
==============================================================================
