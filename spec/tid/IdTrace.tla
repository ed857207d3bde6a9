------------------------------ MODULE IdTrace ------------------------------
(* Answers recorded from the real code, accepted line by line iff they are the *)
(* ones of the specification.  TRACE names the recorded file.                  *)
EXTENDS TransitionIds, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
vars == <<i>>
Init == i = 0
Next == i < Len(Trace) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Line == Trace[i]
Usable == \A j \in 1..Len(Line.path) : EvenWidth(Line.path[j])
Leaves_ok == i > 0 => Line.got.leaves = Answers(Line.path).leaves
Show_ok   == i > 0 => Line.got.show = Answers(Line.path).show
Split_ok  == i > 0 /\ Splittable(Line.path) => Line.got.split = Answers(Line.path).split
Refuse_ok == i > 0 /\ ~Splittable(Line.path) => Line.got.split = Answers(Line.path).split
Usable_ok == i > 0 => Usable
Consumed  == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
