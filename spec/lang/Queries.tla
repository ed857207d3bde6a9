------------------------------ MODULE Queries -------------------------------
(***************************************************************************)
(* The language of queries: which token sequences are queries, and what    *)
(* they ask.                                                               *)
(*                                                                         *)
(*   queries ::= query { ";" query }                                       *)
(*   query   ::= "refinement:" sys "<=" sys                                *)
(*             | ("consistency:" | "determinism:" | "implementation:"      *)
(*                | "specification:") sys                                  *)
(*             | "reachability:" sys "@" ("init" | state) "->" state       *)
(*             | ("get-component:" | "prune:" | "bisim-minim:") sys        *)
(*                     [ "save-as" name ]                                  *)
(*   sys     ::= part { ("//" | "\\" | "||" | "&&") part }                 *)
(*   part    ::= comp | "(" sys ")"                                        *)
(*   comp    ::= name [ "[" identifier "]" ]                               *)
(*   state   ::= or { ("&&" | "and") or }                                  *)
(*   or      ::= sub { ("||" | "or") sub }                                 *)
(*   sub     ::= "(" state ")" | ("not" | "!") state | diff cmp diff       *)
(*             | var | "true" | "false"                                    *)
(*   diff    ::= (number | var) { ("-" | "+") (number | var) }             *)
(*   var     ::= comp "." name                                             *)
(*                                                                         *)
(* In systems quotient is loosest, then composition, then conjunction, and *)
(* each groups to the left.  In states negation reaches as far as it can.  *)
(*                                                                         *)
(* Spec derives the queries within a budget (every one is printed with its *)
(* tree); Given reads the token sequences of the file CASES.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start,     \* "query", "sys" (in a consistency query) or "state" (in a reachability query)
          Terms,     \* how many components, variables and numbers a derived query may have
          Depth      \* how deeply it may be bracketed

Plain == {"consistency:", "determinism:", "implementation:", "specification:"}
Saving == {"get-component:", "prune:", "bisim-minim:"}
Cmps == {"<", "<=", "==", ">=", ">"}
Marks == {"save-as"} \cup Cmps \cup {"(", ")", "[", "]", ".", ";", "@", "->", "-", "+", "!", "&&", "||", "//", "\\\\"}
Numbers == {"0", "1", "3", "12", "45"}
Huge == {"2147483648", "99999999999"}    \* do not fit
OddIds == {"a b", "x-1", "@!"} \cup Huge  \* no names; but whatever is between brackets is an identifier
Keys == {"refinement:", "reachability:"} \cup Plain \cup Saving
IsName(w) == w # "" /\ w \notin Marks \cup Numbers \cup Keys \cup OddIds

Fail == [ok |-> FALSE, t |-> <<>>, n |-> 0]
Got(t, n) == [ok |-> TRUE, t |-> t, n |-> n]
Tok(s, i) == IF i <= Len(s) THEN s[i] ELSE ""

(* Systems *)
Comp(s, i) ==
    IF ~IsName(Tok(s, i)) THEN Fail
    ELSE IF Tok(s, i + 1) = "[" /\ Tok(s, i + 2) \notin {"", "[", "]"} /\ Tok(s, i + 3) = "]"
         THEN Got(<<"comp", s[i], s[i + 2]>>, i + 4)
    ELSE Got(<<"comp", s[i], "">>, i + 1)

SOps == {"//", "\\\\", "||", "&&"}
Name(op) == CASE op \in {"//", "\\\\"} -> "quotient" [] op = "||" -> "composition" [] op = "&&" -> "conjunction"
Levels == <<{"//", "\\\\"}, {"||"}, {"&&"}>>
RECURSIVE Sys(_, _), Part(_, _), SMore(_, _, _), Fold(_, _)
Part(s, i) ==
    IF Tok(s, i) = "(" THEN LET r == Sys(s, i + 1) IN IF r.ok /\ Tok(s, r.n) = ")" THEN Got(r.t, r.n + 1) ELSE Fail
    ELSE Comp(s, i)
SMore(s, i, acc) ==
    LET r == IF Tok(s, i) \in SOps THEN Part(s, i + 1) ELSE Fail
    IN  IF r.ok THEN SMore(s, r.n, acc \o <<Tok(s, i), r.t>>) ELSE Got(acc, i)
Fold(l, k) ==
    IF Len(l) = 1 THEN l[1]
    ELSE LET at == {j \in DOMAIN l : j % 2 = 0 /\ l[j] \in Levels[k]}
         IN  IF at = {} THEN Fold(l, k + 1)
             ELSE LET j == CHOOSE j \in at : \A h \in at : h <= j
                  IN  <<Name(l[j]), Fold(SubSeq(l, 1, j - 1), k), Fold(SubSeq(l, j + 1, Len(l)), k + 1)>>
Sys(s, i) ==
    LET f == Part(s, i)
    IN  IF ~f.ok THEN Fail ELSE LET r == SMore(s, f.n, <<f.t>>) IN Got(Fold(r.t, 1), r.n)

(* States *)
Var(s, i) ==
    LET c == Comp(s, i)
    IN  IF c.ok /\ Tok(s, c.n) = "." /\ IsName(Tok(s, c.n + 1)) THEN Got(<<"var", c.t, s[c.n + 1]>>, c.n + 2) ELSE Fail
Operand(s, i) == IF Tok(s, i) \in Numbers THEN Got(<<"num", s[i]>>, i + 1) ELSE Var(s, i)
RECURSIVE DMore(_, _), State(_, _), Or(_, _), Sub(_, _), LMore(_, _, _, _)
DMore(s, l) ==
    LET r == IF Tok(s, l.n) \in {"-", "+"} THEN Operand(s, l.n + 1) ELSE Fail
    IN  IF r.ok THEN DMore(s, Got(<<Tok(s, l.n), l.t, r.t>>, r.n)) ELSE l
Diff(s, i) == LET f == Operand(s, i) IN IF f.ok THEN DMore(s, f) ELSE Fail
LMore(s, what, i, acc) ==
    LET r == IF what = "and" /\ Tok(s, i) \in {"&&", "and"} THEN Or(s, i + 1)
             ELSE IF what = "or" /\ Tok(s, i) \in {"||", "or"} THEN Sub(s, i + 1)
             ELSE Fail
    IN  IF r.ok THEN LMore(s, what, r.n, Append(acc, r.t)) ELSE Got(acc, i)
Join(what, r) == IF Len(r.t) = 1 THEN Got(r.t[1], r.n) ELSE Got(<<what, r.t>>, r.n)
State(s, i) == LET f == Or(s, i) IN IF ~f.ok THEN Fail ELSE Join("and", LMore(s, "and", f.n, <<f.t>>))
Or(s, i) == LET f == Sub(s, i) IN IF ~f.ok THEN Fail ELSE Join("or", LMore(s, "or", f.n, <<f.t>>))
Sub(s, i) ==
    LET p == IF Tok(s, i) = "(" THEN State(s, i + 1) ELSE Fail
        n == IF Tok(s, i) \in {"not", "!"} THEN State(s, i + 1) ELSE Fail
        l == Diff(s, i)
        r == IF l.ok /\ Tok(s, l.n) \in Cmps THEN Diff(s, l.n + 1) ELSE Fail
        v == Var(s, i)
    IN  IF p.ok /\ Tok(s, p.n) = ")" THEN Got(p.t, p.n + 1)
        ELSE IF r.ok THEN Got(<<Tok(s, l.n), l.t, r.t>>, r.n)
        ELSE IF v.ok THEN v                      \* a component may be called "not" or "true"
        ELSE IF n.ok THEN Got(<<"not", n.t>>, n.n)
        ELSE IF Tok(s, i) \in {"true", "false"} THEN Got(<<s[i]>>, i + 1)
        ELSE Fail

(* Queries *)
Two(k, a, b) == IF a.ok /\ b.ok THEN Got(<<k, a.t, b.t>>, b.n) ELSE Fail
Query(s, i) ==
    LET k == Tok(s, i)
        a == IF k \in Keys THEN Sys(s, i + 1) ELSE Fail
    IN  IF ~a.ok THEN Fail
        ELSE IF k \in Plain THEN Got(<<k, a.t>>, a.n)
        ELSE IF k \in Saving THEN
            IF Tok(s, a.n) = "save-as" THEN (IF IsName(Tok(s, a.n + 1)) THEN Got(<<k, a.t, s[a.n + 1]>>, a.n + 2) ELSE Fail)
            ELSE Got(<<k, a.t, "">>, a.n)
        ELSE IF k = "refinement:" THEN IF Tok(s, a.n) = "<=" THEN Two(k, a, Sys(s, a.n + 1)) ELSE Fail
        ELSE IF Tok(s, a.n) # "@" THEN Fail
        ELSE LET g == State(s, a.n + 1)
                 f == IF ~g.ok /\ Tok(s, a.n + 1) = "init" THEN Got(<<"init">>, a.n + 2) ELSE g
                 t == IF f.ok /\ Tok(s, f.n) = "->" THEN State(s, f.n + 1) ELSE Fail
             IN  IF t.ok THEN Got(<<k, a.t, f.t, t.t>>, t.n) ELSE Fail
RECURSIVE QMore(_, _)
QMore(s, l) ==
    LET r == IF Tok(s, l.n) = ";" THEN Query(s, l.n + 1) ELSE Fail
    IN  IF r.ok THEN QMore(s, Got(Append(l.t, r.t), r.n)) ELSE l
Read(s) ==
    LET f == Query(s, 1)
        r == IF f.ok THEN QMore(s, Got(<<f.t>>, f.n)) ELSE Fail
    IN  IF r.ok /\ r.n = Len(s) + 1 THEN r ELSE Fail

Judge(s) == LET q == Read(s) IN IF q.ok THEN [is |-> "query", t |-> q.t] ELSE [is |-> "refused", t |-> <<>>]

(***************************************************************************)
(* The machine that derives queries.                                       *)
(***************************************************************************)
VARIABLES done, todo, terms, case
vars == <<done, todo, terms, case>>
File == ndJsonDeserialize(IOEnv.CASES)

T(w) == [n |-> "tok", d |-> 0, w |-> w]
N(x, d) == [n |-> x, d |-> d]
Init == /\ done = <<>> /\ terms = 0 /\ case = 0
        /\ todo = CASE Start = "query" -> <<N("query", 0)>>
                    [] Start = "sys" -> <<T("consistency:"), N("sys", 0)>>
                    [] Start = "state" -> <<T("reachability:"), T("A"), T("@"), T("init"), T("->"), N("state", 0)>>
Toks(ws) == [i \in DOMAIN ws |-> T(ws[i])]
Expand(h) ==
    LET d == h.d
    IN  CASE h.n = "query" -> {<<T(k), N("sys", d)>> : k \in Plain \cup Saving}
                \cup {<<T(k), N("sys", d), T("save-as"), T("N")>> : k \in Saving}
                \cup {<<T("refinement:"), N("sys", d), T("<="), N("sys", d)>>,
                      <<T("reachability:"), N("sys", d), T("@"), T("init"), T("->"), N("state", d)>>,
                      <<T("reachability:"), N("sys", d), T("@"), N("state", d), T("->"), N("state", d)>>,
                      <<T("consistency:"), N("part", Depth), T(";"), N("query", d)>>}
          [] h.n = "sys" -> {<<N("part", d)>>} \cup {<<N("part", d), T(o), N("sys", d)>> : o \in SOps}
          [] h.n = "part" -> {<<T("A")>>, <<T("B"), T("["), T("a b"), T("]")>>}
                \cup (IF d < Depth THEN {<<T("("), N("sys", d + 1), T(")")>>} ELSE {})
          [] h.n = "state" -> {<<N("or", d)>>} \cup {<<N("or", d), T(o), N("state", d)>> : o \in {"&&", "and"}}
          [] h.n = "or" -> {<<N("sub", d)>>} \cup {<<N("sub", d), T(o), N("or", d)>> : o \in {"||", "or"}}
          [] h.n = "sub" -> {<<T("A"), T("."), T("L1")>>, <<T("true")>>,
                             <<T("B"), T("["), T("1"), T("]"), T("."), T("x"), T("-"), T("3"), T("+"), T("A"), T("."), T("y"), T("<="), T("12")>>}
                \cup {<<T(o), N("state", d)>> : o \in {"not", "!"}}
                \cup (IF d < Depth THEN {<<T("("), N("state", d + 1), T(")")>>} ELSE {})
Leaf == {"part", "sub"}
RECURSIVE Settle(_, _)
Settle(d, t) == IF t # <<>> /\ t[1].n = "tok" THEN Settle(Append(d, t[1].w), Tail(t)) ELSE <<d, t>>
Step == \E p \in Expand(Settle(done, todo)[2][1]) :
    LET now == Settle(done, todo)
        new == Settle(now[1], p \o Tail(now[2]))
    IN  /\ done' = new[1]
        /\ todo' = new[2]
        /\ terms' = terms + IF now[2][1].n \in Leaf THEN 1 ELSE 0      \* brackets and negations count, too
        /\ terms' + Cardinality({i \in DOMAIN new[2] : new[2][i].n # "tok"}) <= Terms
        /\ UNCHANGED case
Next == todo # <<>> /\ Step
Spec == Init /\ [][Next]_vars

Given == /\ case \in DOMAIN File /\ done = File[case].s /\ todo = <<>> /\ terms = 0
         /\ [][UNCHANGED vars]_vars

Emit == todo = <<>> => PrintT("CASE " \o ToJson([c |-> case, s |-> done, j |-> Judge(done)]))
\* What the machine derives is a query; another query may follow it.
Derived == (todo = <<>> /\ case = 0) =>
    LET q == Read(done)
        r == Read(done \o <<";">> \o done)
    IN  q.ok /\ r.ok /\ r.t = q.t \o q.t
=============================================================================
