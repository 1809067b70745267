------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* The library's error values: how they are created (from the inside out,  *)
(* an error can be the cause of another), which creations panic, and what  *)
(* can be observed of the finished value, in any order.  A value may also  *)
(* be boxed, or sent through the future the derived code returns; nothing  *)
(* about it may change.  Every behaviour is printed and replayed.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json, IOUtils

Deep == IOEnv.VERIF_TIER = "thorough"

\* The links of a chain of causes, outermost first.
LStatus(s)  == [k |-> "status", status |-> s, ms |-> <<>>, t |-> ""]
LCause(s)   == [k |-> "cause", status |-> s, ms |-> <<>>, t |-> ""]     \* its cause is the next link
LMethods(m) == [k |-> "methods", status |-> 405, ms |-> m, t |-> ""]
LOwn(t)     == [k |-> "own", status |-> 0, ms |-> <<>>, t |-> t]        \* a user's error type, caused by the next link, if any
LText(t)    == [k |-> "text", status |-> 0, ms |-> <<>>, t |-> t]
IsLib(l) == l.k \in {"status", "cause", "methods"}
IsErrorStatus(s) == s \in 400..599

Methods == <<"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PURGE", "M-SEARCH">>
Lists(n) == UNION {[1..k -> {Methods[i] : i \in {1, 2, 4, 11}}] : k \in 0..n}
LongLists == {SubSeq(Methods \o Reverse(Methods), i, j) : i \in 1..4, j \in 10..22} \cup {[i \in 1..n |-> "PURGE"] : n \in {2, 9, 40}}
             \cup {Methods \o Methods \o Methods \o Methods \o Methods \o Methods, [i \in 1..70 |-> IF i = 70 THEN "PUT" ELSE "GET"]}
Subsets == {SelectSeq(Methods, LAMBDA m : m \in S) : S \in SUBSET {Methods[i] : i \in 1..(IF Deep THEN 11 ELSE 8)}}

\* (long texts are kept whole)
Ten == "0123456789abcdef %{}<>\t\"\\ and so on, /a/b?c=d&e#f "
Long == LET a == Ten \o Ten \o Ten \o Ten
            b == a \o a \o a \o a
        IN  b \o b \o b \o b \o b \o "end"
Causes ==
    {<<LText("gone")>>, <<LText(Ten)>>, <<LText(Long)>>, <<LOwn(Long), LText("deep")>>, <<LText("")>>, <<LText("a\nb: c")>>, <<LOwn("inner")>>, <<LOwn("outer"), LText("deep")>>,
     <<LOwn("outer"), LOwn("inner")>>,
     <<LStatus(404)>>, <<LStatus(405)>>, <<LMethods(<<"GET", "PUT">>)>>, <<LMethods(<<>>)>>,
     <<LCause(405), LOwn("inner")>>, <<LCause(503), LMethods(<<"POST">>)>>, <<LOwn("outer"), LMethods(<<"POST">>)>>,
     <<LCause(400), LCause(405), LText("deep")>>, <<LStatus(200)>>, <<LCause(302), LText("deep")>>,
     <<LCause(401), LCause(500), LCause(405), LOwn("o"), LCause(599), LCause(400), LText(Long)>>}
Representative ==
    {<<LStatus(s)>> : s \in {400, 404, 405, 417, 500, 599, 100, 200, 302, 399}}
    \cup {<<LCause(s)>> \o c : s \in {404, 405, 500, 204}, c \in Causes}
    \cup {<<LMethods(m)>> : m \in Lists(1)}
Broad ==
    {<<LStatus(s)>> : s \in 100..599}
    \cup {<<LCause(s)>> \o c : s \in 100..599, c \in IF Deep THEN Causes ELSE {<<LText("gone")>>, <<LMethods(<<"GET", "PUT">>)>>}}
    \cup {<<LMethods(m)>> : m \in Lists(IF Deep THEN 4 ELSE 3) \cup LongLists \cup Subsets}
Ops == {"status", "source", "causes", "display", "response", "allowed", "box", "future"}

VARIABLES plan,    \* the chain to build
          made,    \* how many of its links are built, from the inside
          st,      \* "build", "panicked", "made", "reported"
          seen,    \* the observations
          room     \* how many more there may be
evars == <<plan, made, st, seen, room>>

Init ==
    /\ \/ plan \in Broad /\ room = 1
       \/ plan \in Representative /\ room = (IF Deep THEN 4 ELSE 3)
    /\ made = 0 /\ st = "build" /\ seen = <<>>

\* A link is built around those already there; a library error needs an error status.
Build ==
    /\ st = "build"
    /\ LET l == plan[Len(plan) - made]
       IN  IF IsLib(l) /\ ~IsErrorStatus(l.status) THEN st' = "panicked" /\ made' = made
           ELSE made' = made + 1 /\ st' = (IF made + 1 = Len(plan) THEN "made" ELSE "build")
    /\ UNCHANGED <<plan, seen, room>>

E == plan[1]
Name(l) == IF IsLib(l) THEN "lib" \o ToString(l.status) ELSE l.k \o " " \o l.t
Listed == IF E.k = "methods" THEN Range(E.ms) ELSE {}
Obs(op, has, num, set, seq) == [op |-> op, has |-> has, num |-> num, set |-> set, seq |-> seq]
What(op) ==
    CASE op = "status" -> Obs(op, TRUE, E.status, {}, <<>>)
      [] op = "source" -> Obs(op, E.k = "cause", 0, {}, IF E.k = "cause" THEN <<Name(plan[2])>> ELSE <<>>)
      [] op = "causes" -> Obs(op, TRUE, 0, {}, [j \in 1..(Len(plan) - 1) |-> Name(plan[j + 1])])
      \* the texts a display must contain: those of its cause, and what a library error there must contain in turn
      [] op = "display" ->
            LET upto == {k \in 2..Len(plan) : \A j \in 2..(k - 1) : plan[j].k = "cause"}
            IN  Obs(op, TRUE, 0, {}, [j \in 1..Cardinality({k \in upto : ~IsLib(plan[k])}) |->
                                          plan[CHOOSE k \in upto : ~IsLib(plan[k])].t])
      [] op = "response" -> Obs(op, E.status = 405, E.status, Listed, <<>>)
      [] op = "allowed" -> Obs(op, E.status = 405, 0, Listed, <<>>)
      [] OTHER -> Obs(op, TRUE, 0, {}, <<>>)

Look(op) ==
    /\ st = "made" /\ room > 0
    /\ seen' = Append(seen, What(op)) /\ room' = room - 1
    /\ UNCHANGED <<plan, made, st>>
Report ==
    /\ \/ st = "panicked"
       \/ st = "made" /\ room = 0
    /\ PrintT(ToJson([plan |-> plan, made |-> st = "made", seen |-> [j \in 1..Len(seen) |-> [seen[j] EXCEPT !.set = SetToSeq(@)]]]))
    /\ st' = "reported" /\ UNCHANGED <<plan, made, seen, room>>
Next == Build \/ (\E op \in Ops : Look(op)) \/ Report
Spec == Init /\ [][Next]_evars

---------------------------------------------------------------------------
\* C14
OnlyErrors == (st = "made") => \A j \in 1..Len(plan) : IsLib(plan[j]) => IsErrorStatus(plan[j].status)
PanicsRightly == (st = "panicked") => \E j \in 1..Len(plan) : IsLib(plan[j]) /\ ~IsErrorStatus(plan[j].status)
NeverBoth == (st = "panicked") => seen = <<>>
\* asking again, whatever was asked in between, gives the same answer
Unchanging == \A i, j \in 1..Len(seen) : seen[i].op = seen[j].op => seen[i] = seen[j]
AllowIff405 == \A j \in 1..Len(seen) : seen[j].op \in {"response", "allowed"} => (seen[j].has <=> E.status = 405)
Agree == \A i, j \in 1..Len(seen) :
            (seen[i].op = "response" /\ seen[j].op = "allowed") => seen[i].set = seen[j].set /\ seen[i].has = seen[j].has
Frozen == [][plan' = plan]_evars
=============================================================================
