------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* Every history of N requests over Users, Hashes, Models and Kinds; the   *)
(* check sends each of them to the real server.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Users, Hashes, Models, Kinds, N
VARIABLE hist
Requests == [u : Users, h : Hashes, m : Models, k : Kinds]
(* Users and hashes are introduced in order: renaming them changes nothing. *)
Past(f(_)) == {f(hist[i]) : i \in DOMAIN hist}
UserOf(r) == r.u
HashOf(r) == r.h
InOrder(r) == /\ \A v \in Users : v < r.u => v \in Past(UserOf)
              /\ \A g \in Hashes \ {0} : g < r.h => g \in Past(HashOf)
Init == hist = <<>>
Next == /\ Len(hist) < N
        /\ \E r \in Requests : InOrder(r) /\ hist' = Append(hist, r)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) < N \/ PrintT("CASE " \o ToJson([i \in DOMAIN hist |-> <<hist[i].u, hist[i].h, hist[i].m, hist[i].k>>]))
==============================================================================
