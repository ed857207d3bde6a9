----------------------------- MODULE CacheModel -----------------------------
(***************************************************************************)
(* All overlapping requests of some clients on the server's memory, with   *)
(* what the memory must guarantee: an answer comes from content that this  *)
(* very user sent with this hash, no later than the answer, and not from   *)
(* content that the memory replaced before the request began.              *)
(***************************************************************************)
EXTENDS Cache, Sequences, TLC
CONSTANTS Clients, Users, Hashes, Models, N
VARIABLES entry, at, left, sent, old
vars == <<entry, at, left, sent, old>>

Idle == [ph |-> "idle", u |-> 0, h |-> 0, m |-> 0, a |-> 0, old |-> {}]
Init == /\ entry = [u \in Users |-> None]
        /\ at = [c \in Clients |-> Idle]
        /\ left = N
        /\ sent = {}                      \* <<u, h, m>> of every request begun
        /\ old = {}                       \* <<u, h, m>> replaced or forgotten, and not stored again

Call(c) == /\ at[c].ph = "idle" /\ left > 0
           /\ \E u \in Users, h \in Hashes, m \in Models :
                 /\ at' = [at EXCEPT ![c] = [ph |-> "look", u |-> u, h |-> h, m |-> m, a |-> 0, old |-> old]]
                 /\ sent' = sent \cup {<<u, h, m>>}
           /\ left' = left - 1
           /\ UNCHANGED <<entry, old>>
Gone(u, e) == IF entry[u] # None /\ e # entry[u] THEN {<<u, entry[u][1], entry[u][2]>>} ELSE {}
Look(c) == /\ at[c].ph = "look"
           /\ \E l \in Looks(entry[at[c].u], at[c].h) :
                 /\ entry' = [entry EXCEPT ![at[c].u] = l.entry]
                 /\ old' = old \cup Gone(at[c].u, l.entry)
                 /\ at' = [at EXCEPT ![c].ph = IF l.found = None THEN "store" ELSE "done", ![c].a = l.found[2]]
           /\ UNCHANGED <<left, sent>>
Store(c) == /\ at[c].ph = "store"
            /\ LET r == at[c]
                   e == Stored(entry[r.u], r.h, r.m)
               IN  /\ entry' = [entry EXCEPT ![r.u] = e]
                   /\ old' = (old \cup Gone(r.u, e)) \ {<<r.u, r.h, r.m>>}
                   /\ at' = [at EXCEPT ![c].ph = "done", ![c].a = r.m]
            /\ UNCHANGED <<left, sent>>
Return(c) == /\ at[c].ph = "done"
             /\ at' = [at EXCEPT ![c] = Idle]
             /\ UNCHANGED <<entry, left, sent, old>>
Next == \E c \in Clients : Call(c) \/ Look(c) \/ Store(c) \/ Return(c)
Spec == Init /\ [][Next]_vars

Done(c) == at[c].ph = "done"
(* The answer is made of what the user sent under the hash. *)
Own == \A c \in Clients : Done(c) => <<at[c].u, at[c].h, at[c].a>> \in sent
(* Not from content that was replaced before the request and not sent again. *)
Fresh == \A c \in Clients : Done(c) /\ at[c].a # at[c].m =>
            \/ <<at[c].u, at[c].h, at[c].a>> \notin at[c].old
            \/ \E k \in Clients \ {c} : at[k].ph # "idle" /\ at[k].u = at[c].u /\ at[k].h = at[c].h /\ at[k].m = at[c].a
            \/ <<at[c].u, at[c].h, at[c].a>> \notin old
(* Hash 0 is never kept, nor answered from memory. *)
Zero == /\ \A u \in Users : entry[u] # None => entry[u][1] # 0
        /\ \A c \in Clients : Done(c) /\ at[c].h = 0 => at[c].a = at[c].m
=============================================================================
