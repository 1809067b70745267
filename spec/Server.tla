------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* A stack of services behind a real HTTP/1 server: connections come into  *)
(* being, each gets a service of its own; clients send their requests one  *)
(* after the other or several at once, in pieces, and may leave in the     *)
(* middle of a body.  What an adapter answers is sent back on the same     *)
(* connection, in order; an error or a panic that leaves the stack ends    *)
(* that connection, and nothing else.                                      *)
(*                                                                         *)
(* Input: scenarios [id, base, layers, conns (their number), reqs, pipe    *)
(* (several requests may be sent at once), halves (bodies may come in two  *)
(* parts), leave (clients may leave while they wait)]; the plan of a request names its connection (inst), whether the client   *)
(* asks to close afterwards (close), and whether it leaves in the middle   *)
(* of the body (cut).                                                      *)
(***************************************************************************)
EXTENDS Alone, FiniteSets, SequencesExt, Json, IOUtils

Scns == TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT).scenarios)
Hist == IOEnv.VERIF_HIST = "yes"

VARIABLES scn,      \* the scenario
          conn,     \* the connections: [st, sent, done]
          at,       \* how far the server is with each request (in its script)
          body,     \* how much of its body was sent: "no", "half", "whole", "cut"
          opened,   \* how many of its gates are open
          logs,     \* the calls of user code made for it
          ans,      \* what the client gets for it
          hist
vars == <<scn, conn, at, body, opened, logs, ans, hist>>

S == Scns[scn]
Rs == 1..Len(S.reqs)
Cs == 1..S.conns
P(i) == S.reqs[i]

---------------------------------------------------------------------------
(* What user code does with a request, as a list of                        *)
(*   [k |-> "log", t |-> call], [k |-> "gate"], [k |-> "body"],            *)
(*   [k |-> "end", t |-> answer]                                           *)

Log(t) == <<[k |-> "log", t |-> t]>>
GateIf(b) == IF b THEN <<[k |-> "gate", t |-> ""]>> ELSE <<>>
NeedsBody == <<[k |-> "body", t |-> ""]>>
End(t) == <<[k |-> "end", t |-> t]>>
RECURSIVE Falls(_, _, _, _)
Falls(s, p, l, where) ==
    IF l > s.layers THEN End("crash " \o where)
    ELSE LET o == p.ph[l]
             nm == "ph" \o ToString(l)
         IN  Log(nm \o " " \o where \o " " \o p.payload)
             \o (IF o.out = "boom0" THEN Falls(s, p, l + 1, nm)
                 ELSE GateIf(o.gate)
                      \o (IF o.out = "boom" THEN Falls(s, p, l + 1, nm)
                          ELSE IF o.out = "ok" THEN Log(nm \o "+") \o End(nm \o ":" \o p.resp)
                          ELSE Log(nm \o "-") \o End("error " \o nm \o " " \o o.out)))
Does(s, p, nm, o, reads, next) ==
    Log(nm)
    \o (IF o.out = "boom0" THEN Falls(s, p, 1, nm)
        ELSE (IF reads THEN NeedsBody ELSE <<>>) \o GateIf(o.gate)
             \o (IF o.out = "boom" THEN Falls(s, p, 1, nm)
                 ELSE IF o.out = "ok" THEN Log(nm \o "+") \o next
                 ELSE Log(nm \o "-") \o End(Failed(s, nm, o))))
ScriptOf(s, p) ==
    IF ~IsAdapter(s) THEN Does(s, p, "handler", p.hand, TRUE, End("handler:" \o p.resp))      \* ("call n" in the place of "handler")
    ELSE CASE p.route = "boom" -> Falls(s, p, 1, "route")
           [] p.route \in {"none", "conv"} -> End(LibText(404, ""))
           [] p.route = "method" -> End(LibText(405, p.allow))
           [] OTHER ->
                LET last == Does(s, p, "handler", p.hand, FALSE, End("handler:" \o (IF p.method = "HEAD" THEN "" ELSE p.resp)))
                IN  Does(s, p, "guard", p.guard, FALSE, IF p.body.has THEN Does(s, p, "body", p.body, TRUE, last) ELSE last)
\* (evaluated once)
ASSUME TLCSet(1, TLCEval([k \in 1..Len(Scns) |-> [i \in 1..Len(Scns[k].reqs) |-> ScriptOf(Scns[k], Scns[k].reqs[i])]]))
ASSUME TLCSet(2, TLCEval([k \in 1..Len(Scns) |-> [i \in 1..Len(Scns[k].reqs) |-> AloneOf(Scns[k], Scns[k].reqs[i])]]))
Script(i) == TLCGet(1)[scn][i]
Alone(i) == TLCGet(2)[scn][i]

HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Ends_(t) == HasPrefix(t, "error") \/ HasPrefix(t, "crash")         \* no response
\* Whether the connection is used on after this request.
Keeps(i) == ~P(i).close /\ ~P(i).cut /\ ~Ends_(Alone(i).ans)

---------------------------------------------------------------------------
Of(c) == SelectSeq([i \in Rs |-> i], LAMBDA i : P(i).inst = c)
Current(c) == IF conn[c].st = "open" /\ conn[c].done < conn[c].sent THEN Of(c)[conn[c].done + 1] ELSE 0
Item(i) == Script(i)[at[i] + 1]
Passed(i) == Cardinality({k \in 1..at[i] : Script(i)[k].k = "gate"})
Gates(i) == Cardinality({k \in 1..Len(Script(i)) : Script(i)[k].k = "gate"})
CanWork(c) ==
    /\ Current(c) # 0
    /\ LET i == Current(c)
       IN  CASE Item(i).k = "gate" -> opened[i] > Passed(i)
             [] Item(i).k = "body" -> body[i] \in {"whole", "cut"}
             [] OTHER -> TRUE
Quiet == \A c \in Cs : ~CanWork(c)

Init ==
    /\ scn \in 1..Len(Scns)
    /\ conn = [c \in Cs |-> [st |-> "none", sent |-> 0, done |-> 0]]
    /\ at = [i \in Rs |-> 0] /\ body = [i \in Rs |-> "no"] /\ opened = [i \in Rs |-> 0]
    /\ logs = [i \in Rs |-> <<>>] /\ ans = [i \in Rs |-> ""]
    /\ hist = <<>>

\* How things stand, before the environment does something.
Now == [calls |-> [i \in Rs |-> Len(logs[i])], ans |-> ans, st |-> [c \in Cs |-> conn[c].st]]
Did(a, i) == hist' = IF Hist THEN Append(hist, [a |-> a, i |-> i, now |-> Now]) ELSE IF a = "report" THEN <<a>> ELSE <<>>

(* The server                                                              *)

Over(c, i, text) ==
    /\ ans' = [ans EXCEPT ![i] = text]
    /\ conn' = [conn EXCEPT ![c].done = @ + 1, ![c].st = IF Ends_(text) \/ P(i).close THEN "closed" ELSE "open"]
Work(c) ==
    /\ CanWork(c)
    /\ LET i == Current(c)
           it == Item(i)
       IN  CASE it.k = "log" ->
                  /\ logs' = [logs EXCEPT ![i] = Append(@, IF ~IsAdapter(S) /\ it.t = "handler" THEN "call " \o ToString(conn[c].done + 1) ELSE it.t)]
                  /\ at' = [at EXCEPT ![i] = @ + 1]
                  /\ UNCHANGED <<conn, ans>>
             [] it.k = "gate" -> at' = [at EXCEPT ![i] = @ + 1] /\ UNCHANGED <<conn, ans, logs>>
             [] it.k = "body" ->
                  IF body[i] = "whole" THEN at' = [at EXCEPT ![i] = @ + 1] /\ UNCHANGED <<conn, ans, logs>>
                  ELSE Over(c, i, "error transport") /\ UNCHANGED <<at, logs>>
             [] it.k = "end" -> Over(c, i, it.t) /\ UNCHANGED <<at, logs>>
    /\ UNCHANGED <<scn, body, opened, hist>>

(* The clients, and what user code waits for                               *)

Connect(c) ==
    /\ Quiet /\ conn[c].st = "none"
    /\ \A d \in 1..(c - 1) : conn[d].st # "none"
    /\ conn' = [conn EXCEPT ![c].st = "open"]
    /\ Did("connect", c)
    /\ UNCHANGED <<scn, at, body, opened, logs, ans>>
Reads(i) == \E k \in 1..Len(Script(i)) : Script(i)[k].k = "body"
Send(c) ==
    /\ Quiet /\ conn[c].st = "open" /\ conn[c].sent < Len(Of(c))
    /\ conn[c].sent > conn[c].done =>          \* several at once
           S.pipe /\ \A k \in (conn[c].done + 1)..conn[c].sent : Keeps(Of(c)[k]) /\ body[Of(c)[k]] = "whole"
    /\ LET i == Of(c)[conn[c].sent + 1]
       IN  \E half \in {P(i).cut} \cup (IF Reads(i) /\ S.halves THEN {TRUE} ELSE {}) :
               /\ body' = [body EXCEPT ![i] = IF half THEN "half" ELSE "whole"]
               /\ Did(IF half THEN "half" ELSE "send", i)
    /\ conn' = [conn EXCEPT ![c].sent = @ + 1]
    /\ UNCHANGED <<scn, at, opened, logs, ans>>
Rest(i) ==
    /\ Quiet /\ body[i] = "half" /\ conn[P(i).inst].st = "open"
    /\ body' = [body EXCEPT ![i] = IF P(i).cut THEN "cut" ELSE "whole"]
    /\ Did(IF P(i).cut THEN "cut" ELSE "rest", i)
    /\ UNCHANGED <<scn, conn, at, opened, logs, ans>>
Open(i) ==
    /\ Quiet /\ Current(P(i).inst) = i /\ Item(i).k = "gate"
    /\ opened' = [opened EXCEPT ![i] = @ + 1]
    /\ Did("open", i)
    /\ UNCHANGED <<scn, conn, at, body, logs, ans>>

\* A client leaves while it waits for an answer: whether the server goes on
\* with the request is its own affair (here it does not).
Leave(c) ==
    /\ Quiet /\ S.leave /\ Current(c) # 0
    /\ conn' = [conn EXCEPT ![c].st = "gone"]
    /\ Did("leave", c)
    /\ UNCHANGED <<scn, at, body, opened, logs, ans>>

Finished == Quiet /\ \A c \in Cs : conn[c].st \in {"closed", "gone"} \/ (conn[c].st = "open" /\ conn[c].done = Len(Of(c)))
Reported == Len(hist) > 0 /\ (IF Hist THEN hist[Len(hist)].a = "report" ELSE hist[1] = "report")
Report ==
    /\ Finished /\ ~Reported
    /\ (Hist => PrintT(ToJson([scn |-> S.id, steps |-> Append(hist, [a |-> "report", i |-> 0, now |-> Now]), logs |-> logs, ans |-> ans,
                           alone |-> [i \in Rs |-> Alone(i).log]])))
    /\ Did("report", 0)
    /\ UNCHANGED <<scn, conn, at, body, opened, logs, ans>>

Next ==
    \/ \E c \in Cs : Connect(c) \/ Send(c) \/ Work(c) \/ Leave(c)
    \/ \E i \in Rs : Rest(i) \/ Open(i)
    \/ Report
Spec == Init /\ [][Next]_vars
Fair == /\ Spec
        /\ \A c \in 1..3 : WF_vars(c \in Cs /\ (Connect(c) \/ Send(c) \/ Work(c)))
        /\ \A i \in 1..6 : WF_vars(i \in Rs /\ (Rest(i) \/ Open(i)))

---------------------------------------------------------------------------
(* Properties                                                              *)

MyLog(i) == IF IsAdapter(S) \/ logs[i] = <<>> THEN logs[i] ELSE Tail(logs[i])
IsOver(i) == ans[i] # ""
\* Whoever else is served, a request makes the calls and gets the answer it
\* would get alone, unless its client left.
AsIfAlone ==
    \A i \in Rs : /\ IsPrefix(MyLog(i), Alone(i).log)
                  /\ IsOver(i) => \/ ans[i] = Alone(i).ans /\ MyLog(i) = Alone(i).log
                                  \/ P(i).cut /\ ans[i] = "error transport"
\* One request at a time on each connection, in order.
InOrder ==
    \A c \in Cs : \A k \in 1..Len(Of(c)) :
        /\ IsOver(Of(c)[k]) <=> k <= conn[c].done
        /\ logs[Of(c)[k]] # <<>> => k <= conn[c].done + 1 /\ k <= conn[c].sent
\* A connection ends by its own doing only.
EndsForAReason ==
    \A c \in Cs : conn[c].st = "closed" => conn[c].done > 0 /\ LET i == Of(c)[conn[c].done] IN Ends_(ans[i]) \/ P(i).close
\* Whoever reads a body has all of it.
WholeBody == \A i \in Rs : (IsOver(i) /\ ~Ends_(ans[i]) /\ HasPrefix(ans[i], "handler") /\ Reads(i)) => body[i] = "whole"
\* One step serves one connection.
NoInfluence == [][Cardinality({c \in DOMAIN conn : conn[c] # conn'[c] \/ \E i \in DOMAIN at : P(i).inst = c /\ <<at[i], logs[i], ans[i]>> # <<at'[i], logs'[i], ans'[i]>>}) <= 1]_vars
\* Every request of a connection that is still open is answered, whatever the others wait for.
AllServed == <>(\A c \in Cs : conn[c].st \in {"closed", "gone"} \/ conn[c].done = Len(Of(c)))
=============================================================================
