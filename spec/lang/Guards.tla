------------------------------- MODULE Guards -------------------------------
(***************************************************************************)
(* The language of guards and invariants: which token sequences are        *)
(* guards, how they are grouped, and which clock values they admit.        *)
(*                                                                         *)
(*   guard  ::= [ bool ] [ ";" ]                                           *)
(*   bool   ::= term { ("&&" | "||") term }      "||" binds tighter        *)
(*   term   ::= arith cmp arith | "true" | "false" | "(" bool ")"          *)
(*   arith  ::= fac { ("+"|"-"|"*"|"/"|"%") fac }    usual grouping, left  *)
(*   fac    ::= name | number | "(" arith ")"                              *)
(*                                                                         *)
(* There are two ways into the module.  Spec derives every guard within a  *)
(* budget, one production at a time, so that TLC enumerates the language;  *)
(* Given works through the token sequences of the file CASES, which need   *)
(* not be guards at all.  Either way Emit prints what a sequence means.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kind,      \* "bool": guards over few atoms; "arith": comparisons; "update": updates
          Terms,     \* how many terms a derived guard may have
          Depth,     \* how deeply it may be bracketed
          VN, VM     \* the values of the integer variables n and m

Clocks == <<"x", "y">>
Variables == [n |-> VN, m |-> VM]
Numbers == [i \in 0..9 |-> ToString(i)]
Cmps == {"<", "<=", "==", ">=", ">"}
AOps == {"+", "-", "*", "/", "%"}
BOps == {"&&", "||"}
Huge == {"2147483648", "99999999999"}        \* do not fit
Reserved == {",", "=", ":="} \cup Huge \cup Cmps \cup AOps \cup BOps \cup {"(", ")", ";"}

(***************************************************************************)
(* Parsing.  Every parser takes a sequence and a position and gives the    *)
(* tree it reads there and the position after it.                          *)
(***************************************************************************)
Fail == [ok |-> FALSE, t |-> <<>>, n |-> 0]
Got(t, n) == [ok |-> TRUE, t |-> t, n |-> n]
Tok(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
IsNumber(w) == \E i \in DOMAIN Numbers : Numbers[i] = w
NumberOf(w) == CHOOSE i \in DOMAIN Numbers : Numbers[i] = w
IsName(w) == w # "" /\ w \notin Reserved /\ ~IsNumber(w)

RECURSIVE Bool(_, _), BTerm(_, _), Arith(_, _), Fac(_, _)
RECURSIVE More(_, _, _, _, _), Fold(_, _, _)

\* A list <<t1, op1, t2, op2, ..>> read with the term parser `what`.
Term(what, s, i) == IF what = "b" THEN BTerm(s, i) ELSE Fac(s, i)
More(what, ops, s, i, acc) ==
    IF Tok(s, i) \in ops
    THEN LET r == Term(what, s, i + 1)
         IN  IF r.ok THEN More(what, ops, s, r.n, acc \o <<Tok(s, i), r.t>>) ELSE Got(acc, i)
    ELSE Got(acc, i)

\* Groups such a list: the operators of the loosest level split it, the last of them last.
Fold(l, levels, k) ==
    IF Len(l) = 1 THEN l[1]
    ELSE LET at == {j \in DOMAIN l : j % 2 = 0 /\ l[j] \in levels[k]}
         IN  IF at = {} THEN Fold(l, levels, k + 1)
             ELSE LET j == CHOOSE j \in at : \A h \in at : h <= j
                  IN  <<l[j], Fold(SubSeq(l, 1, j - 1), levels, k), Fold(SubSeq(l, j + 1, Len(l)), levels, k + 1)>>

List(what, ops, levels, s, i) ==
    LET f == Term(what, s, i)
    IN  IF ~f.ok THEN Fail
        ELSE LET r == More(what, ops, s, f.n, <<f.t>>) IN Got(Fold(r.t, levels, 1), r.n)

Bool(s, i) == List("b", BOps, <<{"&&"}, {"||"}>>, s, i)
Arith(s, i) == List("a", AOps, <<{"+", "-"}, {"*", "/", "%"}>>, s, i)

Fac(s, i) ==
    LET w == Tok(s, i)
    IN  IF w = "(" THEN LET r == Arith(s, i + 1)
                        IN  IF r.ok /\ Tok(s, r.n) = ")" THEN Got(r.t, r.n + 1) ELSE Fail
        ELSE IF IsNumber(w) THEN Got(<<"num", NumberOf(w)>>, i + 1)
        ELSE IF IsName(w) THEN Got(<<"name", w>>, i + 1)
        ELSE Fail

BTerm(s, i) ==
    LET l == Arith(s, i)
        r == IF l.ok /\ Tok(s, l.n) \in Cmps THEN Arith(s, l.n + 1) ELSE Fail
        w == Tok(s, i)
    IN  IF r.ok THEN Got(<<Tok(s, l.n), l.t, r.t>>, r.n)
        ELSE IF w \in {"true", "false"} THEN Got(<<w>>, i + 1)
        ELSE IF w = "(" THEN LET b == Bool(s, i + 1)
                             IN  IF b.ok /\ Tok(s, b.n) = ")" THEN Got(b.t, b.n + 1) ELSE Fail
        ELSE Fail

Guard(s) ==
    LET b == Bool(s, 1)
        e == IF b.ok THEN b ELSE Got(<<"true">>, 1)
        n == IF Tok(s, e.n) = ";" THEN e.n + 1 ELSE e.n
    IN  IF n = Len(s) + 1 THEN Got(e.t, n) ELSE Fail

(***************************************************************************)
(* Meaning.  An arithmetic expression is a sum of clocks and a number;     *)
(* "plain" expressions add and subtract clocks but do nothing else with    *)
(* them.  A comparison must be understood when it is plain and compares    *)
(* one clock, or the difference of two, with a number; a comparison of     *)
(* another kind may be refused, but not misunderstood.                     *)
(***************************************************************************)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE 0 - q
Rem(a, b) == a - b * Quot(a, b)

\* x, y: coefficients; k: number; uses: clocks mentioned; plain; def: has a value at all
Lin(x, y, k, u, p, d) == [x |-> x, y |-> y, k |-> k, uses |-> u, plain |-> p, def |-> d]
RECURSIVE Value(_)
Value(t) ==
    IF t[1] = "num" THEN Lin(0, 0, t[2], 0, TRUE, TRUE)
    ELSE IF t[1] = "name" THEN
        IF t[2] = "x" THEN Lin(1, 0, 0, 1, TRUE, TRUE)
        ELSE IF t[2] = "y" THEN Lin(0, 1, 0, 1, TRUE, TRUE)
        ELSE IF t[2] \in DOMAIN Variables THEN Lin(0, 0, Variables[t[2]], 0, TRUE, TRUE)
        ELSE Lin(0, 0, 0, 0, TRUE, FALSE)
    ELSE LET l == Value(t[2])
             r == Value(t[3])
             u == l.uses + r.uses
             p == l.plain /\ r.plain
             d == l.def /\ r.def
             lc == l.x = 0 /\ l.y = 0
             rc == r.x = 0 /\ r.y = 0
         IN  CASE t[1] = "+" -> Lin(l.x + r.x, l.y + r.y, l.k + r.k, u, p, d)
               [] t[1] = "-" -> Lin(l.x - r.x, l.y - r.y, l.k - r.k, u, p, d)
               [] t[1] = "*" -> IF lc THEN Lin(l.k * r.x, l.k * r.y, l.k * r.k, u, p /\ u = 0, d)
                                ELSE IF rc THEN Lin(l.x * r.k, l.y * r.k, l.k * r.k, u, FALSE, d)
                                ELSE Lin(0, 0, 0, u, FALSE, FALSE)
               [] t[1] = "/" -> IF lc /\ rc /\ r.k # 0 THEN Lin(0, 0, Quot(l.k, r.k), u, p /\ u = 0, d)
                                ELSE Lin(0, 0, 0, u, FALSE, FALSE)
               [] t[1] = "%" -> IF lc /\ rc /\ r.k # 0 THEN Lin(0, 0, Rem(l.k, r.k), u, p /\ u = 0, d)
                                ELSE Lin(0, 0, 0, u, FALSE, FALSE)

\* left - right of a comparison
Gap(t) == Value(<<"-", t[2], t[3]>>)
Must(g) == g.plain /\ g.def /\ g.uses <= 2 /\ <<g.x, g.y>> \in
    (IF g.uses = 0 THEN {<<0, 0>>} ELSE IF g.uses = 1 THEN {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>}
     ELSE {<<1, -1>>, <<-1, 1>>})

RECURSIVE Comparisons(_)
Comparisons(t) ==
    IF t[1] \in BOps THEN Comparisons(t[2]) \cup Comparisons(t[3])
    ELSE IF t[1] \in Cmps THEN {t} ELSE {}

\* Clock values are counted in halves, up to 4.
Points == [i \in 1..81 |-> <<(i - 1) \div 9, (i - 1) % 9>>]
Compare(op, v) ==
    CASE op = "<" -> v < 0 [] op = "<=" -> v <= 0 [] op = "==" -> v = 0 [] op = ">=" -> v >= 0 [] op = ">" -> v > 0
RECURSIVE Admits(_)
Admits(t) ==   \* the points (by number) at which t holds
    IF t[1] = "true" THEN DOMAIN Points
    ELSE IF t[1] = "false" THEN {}
    ELSE IF t[1] = "&&" THEN Admits(t[2]) \cap Admits(t[3])
    ELSE IF t[1] = "||" THEN Admits(t[2]) \cup Admits(t[3])
    ELSE LET g == Gap(t) IN {i \in DOMAIN Points : Compare(t[1], g.x * Points[i][1] + g.y * Points[i][2] + 2 * g.k)}

Judge(s) ==
    LET g == Guard(s)
    IN  IF ~g.ok THEN [is |-> "refuse", at |-> {}]
        ELSE LET cs == {Gap(c) : c \in Comparisons(g.t)}
             IN  IF \E c \in cs : ~c.def THEN [is |-> "undefined", at |-> {}]
                 ELSE [is |-> IF \A c \in cs : Must(c) THEN "must" ELSE "may", at |-> Admits(g.t)]

(***************************************************************************)
(* Updates:  update ::= [ assign { "," assign } [ "," ] ]                  *)
(*           assign ::= name ("=" | ":=") arith                            *)
(* An update that gives clocks whole numbers must be understood.           *)
(***************************************************************************)
RECURSIVE Assigns(_, _)
Assigns(s, i) ==    \* the sequence of <<clock, value>> from position i on
    LET a == IF IsName(Tok(s, i)) /\ Tok(s, i + 1) \in {"=", ":="} THEN Arith(s, i + 2) ELSE Fail
        this == <<Tok(s, i), a.t>>
    IN  IF ~a.ok THEN Fail
        ELSE IF a.n = Len(s) + 1 \/ (Tok(s, a.n) = "," /\ a.n = Len(s)) THEN Got(<<this>>, Len(s) + 1)
        ELSE IF Tok(s, a.n) # "," THEN Fail
        ELSE LET r == Assigns(s, a.n + 1) IN IF r.ok THEN Got(<<this>> \o r.t, r.n) ELSE Fail

RECURSIVE Constant(_)
Constant(t) == t[1] = "num" \/ (t[1] \in AOps /\ Constant(t[2]) /\ Constant(t[3]))
ClockOf(w) == CHOOSE i \in DOMAIN Clocks : Clocks[i] = w
JudgeUpdate(s) ==
    LET u == IF s = <<>> THEN Got(<<>>, 1) ELSE Assigns(s, 1)
    IN  IF ~u.ok THEN [is |-> "refused", at |-> <<>>]
        ELSE IF \E i \in DOMAIN u.t : \/ u.t[i][1] \notin {Clocks[j] : j \in DOMAIN Clocks}
                                       \/ ~Constant(u.t[i][2])
                                       \/ LET v == Value(u.t[i][2]) IN ~v.def \/ v.k < 0
             THEN [is |-> "undefined", at |-> <<>>]
        ELSE [is |-> "must", at |-> [i \in DOMAIN u.t |-> <<ClockOf(u.t[i][1]), Value(u.t[i][2]).k>>]]

(***************************************************************************)
(* The machine that derives guards: `todo` is what is still to be derived. *)
(***************************************************************************)
VARIABLES done, todo, terms, case
vars == <<done, todo, terms, case>>

File == ndJsonDeserialize(IOEnv.CASES)

Atoms == {<<"x", "<", "2">>, <<"y", ">=", "1">>, <<"x", "-", "y", "<=", "1">>, <<"true">>}
Init == /\ done = <<>> /\ terms = 0 /\ case = 0
        /\ todo = IF Kind = "bool" THEN <<[n |-> "bool", d |-> 0]>>
                  ELSE <<[n |-> "arith", d |-> 0], [n |-> "cmp", d |-> 0], [n |-> "arith", d |-> 0]>>

T(w) == [n |-> "tok", d |-> 0, w |-> w]
Owed == Cardinality({i \in DOMAIN todo : todo[i].n \in {"bool", "arith", "term", "fac"}})
Expand(h) ==
    LET d == h.d
        N(x) == [n |-> x, d |-> d]
    IN  CASE h.n = "bool" -> {<<N("term")>>} \cup {<<N("term"), T(o), N("bool")>> : o \in BOps}
          [] h.n = "arith" -> {<<N("fac")>>} \cup {<<N("fac"), T(o), N("arith")>> : o \in AOps}
          [] h.n = "cmp" -> {<<T(o)>> : o \in Cmps}
          [] h.n = "term" -> {[i \in DOMAIN a |-> T(a[i])] : a \in Atoms}
                \cup (IF d < Depth THEN {<<T("("), [n |-> "bool", d |-> d + 1], T(")")>>} ELSE {})
          [] h.n = "fac" -> {<<T(w)>> : w \in {"x", "y", "n", "3", "1"}}
                \cup (IF d < Depth THEN {<<T("("), [n |-> "arith", d |-> d + 1], T(")")>>} ELSE {})

RECURSIVE Settle(_, _)
Settle(d, t) == IF t # <<>> /\ t[1].n = "tok" THEN Settle(Append(d, t[1].w), Tail(t)) ELSE <<d, t>>

Step == \E p \in Expand(todo[1]) :
    LET new == Settle(done, p \o Tail(todo))
    IN  /\ done' = new[1]
        /\ todo' = new[2]
        /\ terms' = terms + IF todo[1].n \in {"term", "fac"} /\ p[1].n = "tok" /\ p[1].w # "(" THEN 1 ELSE 0
        /\ terms' + Cardinality({i \in DOMAIN new[2] : new[2][i].n \in {"bool", "arith", "term", "fac"}}) <= Terms
        /\ UNCHANGED case
Next == todo # <<>> /\ Step
Spec == Init /\ [][Next]_vars

Given == /\ case \in DOMAIN File /\ done = File[case].s /\ todo = <<>> /\ terms = 0
         /\ [][UNCHANGED vars]_vars

Emit == todo = <<>> => PrintT("CASE " \o ToJson([c |-> case, s |-> done, j |-> IF Kind = "update" THEN JudgeUpdate(done) ELSE Judge(done)]))

\* What the machine derives is a guard, and brackets around it change nothing.
Derived == (todo = <<>> /\ case = 0) =>
    LET g == Guard(done)
    IN  /\ g.ok
        /\ Kind = "bool" => LET b == Guard(<<"(">> \o done \o <<")">>) IN b.ok /\ b.t = g.t
        /\ Kind = "bool" => Judge(done).is = "must"
=============================================================================
