--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* Simulations: a recorded simulation is followed with the set of states   *)
(* that it can be in.  A case has, besides the system, `steps`, the        *)
(* server's responses in order.  A response has the reported state (`loc`  *)
(* and `zone`), the decisions that are offered next (`ds`, each            *)
(* [a, edges, src, dst, zs, zd] as in Path) and `choice`, the number of    *)
(* the one that the client takes next, or 0 at the end.                    *)
(*                                                                         *)
(* Every response must offer exactly the moves that can be taken in the    *)
(* present states, each with exactly the states that it can be taken in    *)
(* and that it leads to.  Zones are compared at the points where no clock  *)
(* is beyond its largest constant; beyond it, the specification does not   *)
(* tell values apart.                                                      *)
(***************************************************************************)
EXTENDS Runs
VARIABLES i, j, at
vars == <<i, j, at>>
C == Cases[i]
T == Sys[i][1]
R == C.steps[j]

Exact(c, p) == \A m \in 1..c.n : p[m] # Top(c, m)
Grid == [k \in DOMAIN Cases |-> {p \in Points(Cases[k]) : Exact(Cases[k], p)}]

Start(k) == Starts(Cases[k], Sys[k][1])
Init == /\ i \in DOMAIN Cases
        /\ j = 1
        /\ at = TLCEval(Close(Cases[i], Sys[i][1], Start(i)))

Key(d) == <<d.a, EdgesOf(d), d.src, d.dst>>
On(x, k) == {m \in Moves(C, T, x[1], k[1], x[2]) : m[3] = k[2] /\ Name(C, T, m[1]) = k[4]}
From(k) == {x \in at : Name(C, T, x[1]) = k[3] /\ On(x, k) # {}}
To(k, xs) == Close(C, T, UNION {{<<m[1], After(C, x[2], m[2])>> : m \in On(x, k)} : x \in xs})

Enabled == UNION {{<<a, m[3], Name(C, T, x[1]), Name(C, T, m[1])>> : m \in Moves(C, T, x[1], a, x[2])}
                    : x \in at, a \in Actions(T)}
Offered == {Key(d) : d \in ToSet(R.ds)}

(* The zones of several decisions for one move together.                   *)
Group(k) == {d \in ToSet(R.ds) : Key(d) = k}
Agrees(zs, xs) == LET vs == {x[2] : x \in xs}
                  IN  \A p \in Grid[i] : (p \in vs) = (\E z \in zs : Sat(Dof(C), z, p))

(* The chosen decision.  Where the same move is offered in several parts,  *)
(* the simulation goes on from the part that was chosen.                   *)
D == R.ds[R.choice]
Part == LET xs == From(Key(D))
        IN  IF Cardinality({n \in DOMAIN R.ds : Key(R.ds[n]) = Key(D)}) = 1 THEN xs
            ELSE {x \in xs : Sat(Dof(C), D.zs, x[2])}
Known == Cardinality({n \in DOMAIN R.ds : Key(R.ds[n]) = Key(D)}) = 1
         \/ \A x \in From(Key(D)) : Exact(C, x[2])

Next == /\ R.choice # 0
        /\ Known
        /\ j' = j + 1
        /\ at' = TLCEval(To(Key(D), Part))
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

Here == {x \in at : Name(C, T, x[1]) = R.loc}
Why == IF \E x \in at : Name(C, T, x[1]) # R.loc THEN <<"the reported location is another">>
       ELSE IF ~Agrees({R.zone}, at) THEN <<"the reported state is another">>
       ELSE IF Enabled \ Offered # {} THEN <<"not offered", Enabled \ Offered>>
       ELSE IF Offered \ Enabled # {} THEN <<"offered, but cannot be taken", Offered \ Enabled>>
       ELSE LET bs == {k \in Offered : ~Agrees({d.zs : d \in Group(k)}, From(k))}
                bd == {k \in Offered : ~Agrees({d.zd : d \in Group(k)}, To(k, From(k)))}
            IN  IF bs # {} THEN <<"offered in other states than it can be taken in", bs>>
                ELSE IF bd # {} THEN <<"said to lead to other states than it does", bd>>
                ELSE <<>>
Emit == Why = <<>> \/ PrintT("CASE " \o ToJson([c |-> i, j |-> j, why |-> Why]))
==============================================================================
