------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* Requests on a stack of services: at the bottom the asynchronous adapter,*)
(* the blocking adapter or a service of the user's, around it any number   *)
(* of panic-catching layers, in front of it clones and made services.      *)
(* Any number of requests are called, polled, delayed, woken and dropped   *)
(* in any order.                                                           *)
(*                                                                         *)
(* What user code does with a request is scripted by its plan: where its   *)
(* guard, body decoder, handler and the panic handlers wait, and what they *)
(* come to.  User code waits at gates, which the environment opens.        *)
(*                                                                         *)
(* Input: scenarios [id, base, layers, ready, insts, reqs, drops, early,   *)
(* idle, setup] (setup: all services come into being before any is used).  *)
(***************************************************************************)
EXTENDS Alone, FiniteSets, SequencesExt, TLC, Json, IOUtils

Scns == TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT).scenarios)
Locked == IOEnv.VERIF_LOCKED = "yes"      \* one poll at a time runs to its end

VARIABLES scn,      \* the scenario
          pc,       \* what each request is at
          opened,   \* how many of its gates are open
          passed,   \* how many of them it went through
          layer,    \* the panic-catching layer at work for it
          why,      \* the payload of the panic on its way, if any
          logs,     \* the calls of user code made for it
          ans,      \* its answer
          woken,    \* whether its task has to be polled
          active,   \* the request being polled, if any
          inst,     \* the services: [made, ready, asked, calls]
          hist      \* what was done to them all so far, for the replay
svars == <<scn, pc, opened, passed, layer, why, logs, ans, woken, active, inst, hist>>

S == Scns[scn]
Rs == 1..Len(S.reqs)
Is == 1..Len(S.insts)
P(i) == S.reqs[i]
Adapter == S.base \in {"async", "sync"}

NoInst == [made |-> FALSE, ready |-> FALSE, asked |-> 0, calls |-> 0]
Init ==
    /\ scn \in 1..Len(Scns)
    /\ pc = [i \in Rs |-> "new"]
    /\ opened = [i \in Rs |-> 0] /\ passed = [i \in Rs |-> 0] /\ layer = [i \in Rs |-> 0]
    /\ why = [i \in Rs |-> ""] /\ logs = [i \in Rs |-> <<>>] /\ ans = [i \in Rs |-> ""]
    /\ woken = [i \in Rs |-> FALSE] /\ active = 0
    /\ inst = [j \in Is |-> NoInst]
    /\ hist = <<>>

\* (without the history there are far fewer states)
Remember(h) == hist' = IF IOEnv.VERIF_HIST = "yes" THEN Append(hist, h) ELSE IF h.a \in {"report", "idle"} THEN <<h>> ELSE <<>>
Did(a, i, r) == Remember([a |-> a, i |-> i, r |-> r, n |-> 0])
Over(i) == pc[i] \in {"answered", "crashed", "dropped"}

---------------------------------------------------------------------------
(* The environment                                                         *)

\* A service comes into being: the original, one made by a factory (which
\* is never called itself), or a clone of another.
Create(j) ==
    /\ ~inst[j].made /\ active = 0
    /\ \A k \in 1..(j - 1) : inst[k].made
    /\ LET how == S.insts[j]
       IN  inst' = [inst EXCEPT ![j] = IF how.how = "clone" THEN [inst[how.from] EXCEPT !.made = TRUE] ELSE [NoInst EXCEPT !.made = TRUE]]
    /\ Did("create", j, "")
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, woken, active>>

\* Readiness is that of the service at the bottom; adapters are always ready.
Script(j) == IF Adapter THEN <<>> ELSE S.ready
ReadyNow(j) == IF inst[j].asked < Len(Script(j)) THEN Script(j)[inst[j].asked + 1] ELSE "yes"
AskReady(j) ==
    /\ inst[j].made /\ ~inst[j].ready /\ active = 0
    /\ \E i \in Rs : P(i).inst = j /\ pc[i] = "new"
    /\ S.setup => \A k \in Is : inst[k].made /\ (k < j => inst[k].ready \/ inst[k].calls > 0)
    /\ inst' = [inst EXCEPT ![j].asked = @ + 1, ![j].ready = ReadyNow(j) = "yes"]
    /\ Did("ready", j, ReadyNow(j))
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, woken, active>>

\* A request is handed to a service that said it is ready.
Call(i) ==
    /\ pc[i] = "new" /\ active = 0
    /\ inst[P(i).inst].made /\ inst[P(i).inst].ready
    /\ S.setup => \A k \in Is : inst[k].ready \/ inst[k].calls > 0
    /\ inst' = [inst EXCEPT ![P(i).inst].ready = FALSE, ![P(i).inst].calls = @ + 1]
    /\ pc' = [pc EXCEPT ![i] = IF Adapter THEN "route" ELSE "base"]
    /\ logs' = IF Adapter THEN logs ELSE [logs EXCEPT ![i] = Append(@, "call " \o ToString(inst[P(i).inst].calls + 1))]
    /\ woken' = [woken EXCEPT ![i] = TRUE]
    /\ Did("call", i, "")
    /\ UNCHANGED <<scn, opened, passed, layer, why, ans, active>>

\* Its task is polled: it goes as far as it can.
Waiting(i) == pc[i] \in {"guarding", "reading", "handling", "phing"} /\ passed[i] >= opened[i]
Gate(i) == IF pc[i] = "phing" THEN P(i).ph[layer[i]].gate
           ELSE IF pc[i] = "guarding" THEN P(i).guard.gate
           ELSE IF pc[i] = "reading" THEN P(i).body.gate
           ELSE IF pc[i] = "handling" THEN P(i).hand.gate ELSE FALSE
Stuck(i) == Gate(i) /\ Waiting(i)
StartPoll(i) ==
    /\ Locked /\ active = 0
    /\ woken[i] /\ ~Over(i) /\ pc[i] # "new"
    /\ active' = i /\ woken' = [woken EXCEPT ![i] = FALSE]
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, inst, hist>>
EndPoll(i) ==
    /\ Locked /\ active = i
    /\ Stuck(i) \/ Over(i)
    /\ active' = 0
    /\ Remember([a |-> "run", i |-> i, r |-> IF Over(i) THEN "over" ELSE "waits", n |-> Len(logs[i])])
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, woken, inst>>
\* An executor may also poll without a reason.
IdlePoll(i) ==
    /\ Locked /\ active = 0 /\ S.idle
    /\ pc[i] # "new" /\ ~woken[i] /\ Stuck(i)
    /\ Len(hist) > 0 /\ hist[Len(hist)].a # "idle"
    /\ Remember([a |-> "idle", i |-> i, r |-> "waits", n |-> Len(logs[i])])
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, woken, active, inst>>

\* What a request waits for happens, possibly before it waits.
Gates(i) == LET ph == {l \in 1..Len(P(i).ph) : P(i).ph[l].gate}
            IN  (IF P(i).guard.gate THEN 1 ELSE 0) + (IF P(i).body.gate THEN 1 ELSE 0) + (IF P(i).hand.gate THEN 1 ELSE 0) + Cardinality(ph)
Open(i) ==
    /\ active = 0 /\ ~Over(i)
    /\ IF S.early THEN opened[i] < Gates(i) ELSE pc[i] # "new" /\ Stuck(i) /\ (Locked => ~woken[i])
    /\ opened' = [opened EXCEPT ![i] = @ + 1]
    /\ woken' = [woken EXCEPT ![i] = @ \/ (pc[i] # "new" /\ Stuck(i))]
    /\ Did("open", i, "")
    /\ UNCHANGED <<scn, pc, passed, layer, why, logs, ans, active, inst>>

\* The client goes away (but a thread that runs a handler is not interrupted).
Drop(i) ==
    /\ S.drops /\ active = 0 /\ pc[i] # "new" /\ ~Over(i)
    /\ ~(S.base = "sync" /\ pc[i] = "handling")
    /\ pc' = [pc EXCEPT ![i] = "dropped"] /\ ans' = [ans EXCEPT ![i] = "none"]
    /\ woken' = [woken EXCEPT ![i] = FALSE]
    /\ Did("drop", i, IF woken[i] THEN "early" ELSE "")
    /\ UNCHANGED <<scn, opened, passed, layer, why, logs, active, inst>>

---------------------------------------------------------------------------
(* What a poll does                                                        *)

Polled(i) == IF Locked THEN active = i /\ ~Stuck(i) ELSE TRUE
Goto(i, p) == pc' = [pc EXCEPT ![i] = p]
Note(i, e) == logs' = [logs EXCEPT ![i] = Append(@, e)]
Quiet(i) == /\ UNCHANGED <<scn, opened, woken, active, inst>>
            /\ IF Locked THEN UNCHANGED hist ELSE Did("turn", i, pc[i])
Keep == UNCHANGED <<layer, why, ans>>

\* The answer an adapter gives for an error.
LibAnswer(status, allow) == "lib " \o ToString(status) \o (IF status = 405 THEN " allow=" \o allow ELSE "") \o ":"
ErrorAnswer(i, at, o) ==
    IF o.out = "lib" /\ Adapter THEN LibAnswer(o.status, o.allow)
    ELSE "error " \o at \o " " \o o.out        \* passed on as it is
Body(i) == IF Adapter /\ P(i).method = "HEAD" THEN "" ELSE P(i).resp
Answer(i, a) == /\ Goto(i, "answered") /\ ans' = [ans EXCEPT ![i] = a] /\ UNCHANGED <<layer, why>>
\* A panic unwinds to the next layer that catches it.
Panic(i, at) ==
    LET l == layer[i] + 1
    IN  /\ layer' = [layer EXCEPT ![i] = l]
        /\ why' = [why EXCEPT ![i] = at]
        /\ IF l > S.layers THEN Goto(i, "crashed") /\ ans' = [ans EXCEPT ![i] = "crash " \o at]
           ELSE Goto(i, "ph") /\ UNCHANGED ans

Route(i) ==
    /\ Polled(i) /\ pc[i] = "route"
    /\ CASE P(i).route \in {"ok", "boom"} /\ P(i).body.has -> Goto(i, "query") /\ Keep
         [] P(i).route = "ok" -> Goto(i, "guard") /\ Keep
         [] P(i).route = "none" -> Answer(i, LibAnswer(404, ""))
         [] P(i).route = "conv" -> Answer(i, LibAnswer(404, ""))
         [] P(i).route = "method" -> Answer(i, LibAnswer(405, P(i).allow))
         [] P(i).route = "boom" -> Panic(i, "route")
    /\ UNCHANGED <<logs, passed>> /\ Quiet(i)
\* The query parameters of the requests with a body.
Query(i) ==
    /\ Polled(i) /\ pc[i] = "query"
    /\ IF P(i).route = "boom" THEN Panic(i, "route") ELSE Goto(i, "guard") /\ Keep
    /\ UNCHANGED <<logs, passed>> /\ Quiet(i)

Begin(i, at, ing, o, nm) ==
    /\ Polled(i) /\ pc[i] = at
    /\ Note(i, nm)
    /\ IF o.out = "boom0" THEN Panic(i, at) ELSE Goto(i, ing) /\ Keep
    /\ UNCHANGED passed /\ Quiet(i)
GoOn(i) == passed' = [passed EXCEPT ![i] = IF Gate(i) THEN @ + 1 ELSE @]

Guard(i) == Begin(i, "guard", "guarding", P(i).guard, "guard")
Guarding(i) ==
    /\ Polled(i) /\ pc[i] = "guarding" /\ ~Stuck(i)
    /\ GoOn(i)
    /\ LET o == P(i).guard
       IN  CASE o.out = "ok" -> Note(i, "guard+") /\ Goto(i, IF P(i).body.has THEN "body" ELSE "handler") /\ Keep
             [] o.out = "boom" -> Panic(i, "guard") /\ UNCHANGED logs
             [] OTHER -> Note(i, "guard-") /\ Answer(i, ErrorAnswer(i, "guard", o))
    /\ Quiet(i)
Decode(i) == Begin(i, "body", "reading", P(i).body, "body")
Reading(i) ==
    /\ Polled(i) /\ pc[i] = "reading" /\ ~Stuck(i)
    /\ GoOn(i)
    /\ LET o == P(i).body
       IN  CASE o.out = "ok" -> Note(i, "body+") /\ Goto(i, "handler") /\ Keep
             [] o.out = "boom" -> Panic(i, "body") /\ UNCHANGED logs
             [] OTHER -> Note(i, "body-") /\ Answer(i, ErrorAnswer(i, "body", o))
    /\ Quiet(i)
Handler(i) == Begin(i, "handler", "handling", P(i).hand, "handler")
\* A service of the user's: its call has been logged when it was called.
Base(i) ==
    /\ Polled(i) /\ pc[i] = "base"
    /\ IF P(i).hand.out = "boom0" THEN Panic(i, "handler") ELSE Goto(i, "handling") /\ Keep
    /\ UNCHANGED <<passed, logs>> /\ Quiet(i)
Handling(i) ==
    /\ Polled(i) /\ pc[i] = "handling" /\ ~Stuck(i)
    /\ GoOn(i)
    /\ LET o == P(i).hand
       IN  CASE o.out = "ok" -> Note(i, "handler+") /\ Answer(i, "handler:" \o Body(i))
             [] o.out = "boom" -> Panic(i, "handler") /\ UNCHANGED logs
             [] OTHER -> Note(i, "handler-") /\ Answer(i, ErrorAnswer(i, "handler", o))
    /\ Quiet(i)

\* The panic handler of a layer decides what the request is answered; what it
\* answers is not changed any more; if it panics itself, the layers outside
\* catch that.
PH(i) == P(i).ph[layer[i]]
PhName(i) == "ph" \o ToString(layer[i])
PanicHandler(i) ==
    /\ Polled(i) /\ pc[i] = "ph"
    /\ Note(i, PhName(i) \o " " \o why[i] \o " " \o P(i).payload)
    /\ IF PH(i).out = "boom0" THEN Panic(i, PhName(i)) ELSE Goto(i, "phing") /\ Keep
    /\ UNCHANGED passed /\ Quiet(i)
PanicHandling(i) ==
    /\ Polled(i) /\ pc[i] = "phing" /\ ~Stuck(i)
    /\ GoOn(i)
    /\ CASE PH(i).out = "ok" -> Note(i, PhName(i) \o "+") /\ Answer(i, PhName(i) \o ":" \o P(i).resp)
         [] PH(i).out = "boom" -> Panic(i, PhName(i)) /\ UNCHANGED logs
         [] OTHER -> Note(i, PhName(i) \o "-") /\ Answer(i, "error " \o PhName(i) \o " " \o PH(i).out)
    /\ Quiet(i)

Micro(i) == Route(i) \/ Query(i) \/ Guard(i) \/ Guarding(i) \/ Decode(i) \/ Reading(i) \/ Handler(i) \/ Base(i) \/ Handling(i) \/ PanicHandler(i) \/ PanicHandling(i)

---------------------------------------------------------------------------
(* What a request comes to when it is served alone                         *)

\* (evaluated once)
ASSUME TLCSet(1, TLCEval([k \in 1..Len(Scns) |-> [i \in 1..Len(Scns[k].reqs) |-> AloneOf(Scns[k], Scns[k].reqs[i])]]))
ASSUME TLCSet(2, TLCEval({"ph" \o ToString(l) \o " " \o at \o " " \o k :
            l \in 1..3, at \in {"route", "guard", "body", "handler", "ph1", "ph2"}, k \in {"str", "string", "any", "number", "boxed", "error"}}))
Alone(i) == TLCGet(1)[scn][i]
MyLog(i) == IF Adapter \/ logs[i] = <<>> THEN logs[i] ELSE Tail(logs[i])

---------------------------------------------------------------------------
Finished == active = 0 /\ \A i \in Rs : Over(i)
Reported == Len(hist) > 0 /\ hist[Len(hist)].a = "report"
Report ==
    /\ Finished /\ ~Reported
    /\ (IOEnv.VERIF_HIST = "yes" => PrintT(ToJson([scn |-> S.id, steps |-> hist, logs |-> logs, ans |-> ans, alone |-> [i \in Rs |-> Alone(i)]])))
    /\ Did("report", 0, "")
    /\ UNCHANGED <<scn, pc, opened, passed, layer, why, logs, ans, woken, active, inst>>

Next ==
    \/ \E j \in Is : Create(j) \/ AskReady(j)
    \/ \E i \in Rs : Call(i) \/ StartPoll(i) \/ Micro(i) \/ EndPoll(i) \/ IdlePoll(i) \/ Open(i) \/ Drop(i)
    \/ Report
Spec == Init /\ [][Next]_svars
Fair ==
    /\ Spec
    /\ \A j \in 1..4 : WF_svars(j \in Is /\ (Create(j) \/ AskReady(j)))
    /\ \A i \in 1..4 : WF_svars(i \in Rs /\ (Call(i) \/ StartPoll(i) \/ Micro(i) \/ EndPoll(i))) /\ WF_svars(i \in Rs /\ Open(i))

---------------------------------------------------------------------------
(* Properties                                                              *)

\* C18, C15, C16, C17: whatever else goes on, a request makes the calls and
\* gets the answer it would make and get alone.
AsIfAlone ==
    \A i \in Rs : /\ IsPrefix(MyLog(i), Alone(i).log)
                  /\ pc[i] \in {"answered", "crashed"} => MyLog(i) = Alone(i).log /\ ans[i] = Alone(i).ans
\* C15: the handler runs at most once, and only for a decoded request.
Count(i, e) == Cardinality({k \in 1..Len(logs[i]) : logs[i][k] = e})
HandlerOnce ==
    \A i \in Rs : /\ Count(i, "handler") <= 1
                  /\ Count(i, "handler") = 1 => P(i).route = "ok" /\ Count(i, "guard+") = 1 /\ (P(i).body.has => Count(i, "body+") = 1)
\* C16
StartsWith2(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
HeadIsEmpty ==
    \A i \in Rs : (pc[i] = "answered" /\ Adapter /\ P(i).method = "HEAD" /\ layer[i] = 0) =>
        \/ ans[i] = "handler:" \/ StartsWith2(ans[i], "lib") \/ StartsWith2(ans[i], "error")
\* C17: the panic handler of each layer runs at most once, and only after a panic
PhCalls == TLCGet(2)
PhOnce ==
    \A i \in Rs :
        LET ph == Cardinality({k \in 1..Len(logs[i]) : logs[i][k] \in PhCalls})
        IN  IF layer[i] = 0 THEN ph = 0
            ELSE IF pc[i] \in {"ph", "crashed"} \/ (pc[i] = "dropped" /\ ph < layer[i]) THEN ph = layer[i] - 1
            ELSE ph = layer[i]
\* C21: a service is called only when it said it is ready (checked by the
\* harness in the service at the bottom), and clones count for themselves.
CallsMatch ==
    \A j \in Is : (S.insts[j].how # "clone") =>
        inst[j].calls = Cardinality({i \in Rs : P(i).inst = j /\ pc[i] # "new"})
\* No request waits for something that already happened.
NoLostWakeup == \A i \in Rs : (active # i /\ pc[i] # "new" /\ ~Over(i) /\ ~Stuck(i)) => woken[i]
\* C18: a dropped request does nothing any more.
DroppedIsOver == [][\A i \in 1..Len(pc) : pc[i] = "dropped" => pc'[i] = "dropped" /\ logs'[i] = logs[i]]_svars
\* A step for one request changes nothing of another.
NoInfluence ==
    [][Cardinality({i \in 1..Len(pc) : <<pc[i], opened[i], passed[i], layer[i], logs[i], ans[i]>> # <<pc'[i], opened'[i], passed'[i], layer'[i], logs'[i], ans'[i]>>}) <= 1]_svars
\* Every request that is not dropped is answered (or its panic leaves the stack).
AllAnswered == <>(\A i \in Rs : Over(i))
=============================================================================
