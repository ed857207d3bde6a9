----------------------------- MODULE TokenTrace -----------------------------
(***************************************************************************)
(* Tokens that clients really got: each case has `tokens`, a list of lists *)
(* (one for each client).  Those of Tokens.tla: all are different.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, j, all
C == Cases[i]
Init == i \in DOMAIN Cases /\ j = 0 /\ all = {}
Own(k) == {C.tokens[k][n] : n \in DOMAIN C.tokens[k]}
Next == /\ j < Len(C.tokens)
        /\ j' = j + 1
        /\ all' = all \cup Own(j + 1)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, j, all>>
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Sum(k - 1) + Len(C.tokens[k])
Emit == Cardinality(all) = Sum(j) \/ PrintT("CASE " \o ToJson([c |-> i, client |-> j]))
=============================================================================
