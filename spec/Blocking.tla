------------------------------ MODULE Blocking ------------------------------
(***************************************************************************)
(* Blocking work on an executor.  A task is driven on a thread pool; it is *)
(* made of one or two parts, each a closure given to the blocking helper   *)
(* (or a synchronous handler), or a piece of asynchronous code.  A part    *)
(* begins, waits for its gate, and ends with what it comes to.  At most    *)
(* cap closures may block at a time; the others wait.  Which of the        *)
(* waiting ones begins when there is room is left open.                    *)
(*                                                                         *)
(* Input: scenarios [id, cap, tasks: <<[kind, parts: <<[blk, out]>>]>>].   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT).scenarios))
Scns == TLCGet(1)

VARIABLES scn,
          st,       \* each task: new, live, forgotten (never driven), resolved, dropped
          part,     \* each part of it: idle, running, done
          opened,   \* whether its gate is open
          killed,   \* whether the task was told to stop
          res,      \* what the task resolved to
          hist      \* what the environment did
bvars == <<scn, st, part, opened, killed, res, hist>>

S == Scns[scn]
Ts == 1..Len(S.tasks)
Ks(i) == 1..Len(S.tasks[i].parts)
Kind(i) == S.tasks[i].kind
Blk(i, k) == S.tasks[i].parts[k].blk
Out(i, k) == S.tasks[i].parts[k].out
Done(i, k, outs) == part[i][k] = "done" /\ Out(i, k) \in outs

Init ==
    /\ scn \in 1..Len(Scns)
    /\ st = [i \in Ts |-> "new"]
    /\ part = [i \in Ts |-> [k \in Ks(i) |-> "idle"]]
    /\ opened = [i \in Ts |-> [k \in Ks(i) |-> FALSE]]
    /\ killed = [i \in Ts |-> FALSE] /\ res = [i \in Ts |-> ""]
    /\ hist = <<>>
Did(a, i, k) == hist' = IF IOEnv.VERIF_HIST = "yes" THEN Append(hist, [a |-> a, i |-> i, k |-> k]) ELSE <<>>

---------------------------------------------------------------------------
(* The work                                                                *)

Blocked == Cardinality({<<i, k>> \in Ts \X (1..2) : k \in Ks(i) /\ Blk(i, k) /\ part[i][k] = "running"})
Busy(i) == \E k \in Ks(i) : Blk(i, k) /\ part[i][k] = "running"
Failed(i) == \E k \in Ks(i) : Done(i, k, {"err", "boom"})

CanStart(i, k) ==
    /\ st[i] = "live" /\ k \in Ks(i) /\ part[i][k] = "idle"
    /\ ~Busy(i) /\ ~Failed(i)
    /\ Kind(i) = "seq" /\ k = 2 => part[i][1] = "done"
    /\ Blk(i, k) => Blocked < S.cap
Start(i, k) ==
    /\ CanStart(i, k)
    /\ part' = [part EXCEPT ![i][k] = "running"]
    /\ UNCHANGED <<scn, st, opened, killed, res, hist>>

CanFinish(i, k) == st[i] = "live" /\ k \in Ks(i) /\ part[i][k] = "running" /\ opened[i][k] /\ (~Blk(i, k) => ~Busy(i) /\ ~Failed(i))
Finish(i, k) ==
    /\ CanFinish(i, k)
    /\ part' = [part EXCEPT ![i][k] = "done"]
    /\ UNCHANGED <<scn, st, opened, killed, res, hist>>

Name(i, k) == ToString(i) \o "." \o ToString(k)
Results(i) ==
    {"err " \o Name(i, k) : k \in {k \in Ks(i) : Done(i, k, {"err"})}}
    \union {"boom " \o Name(i, k) : k \in {k \in Ks(i) : Done(i, k, {"boom"})}}
    \union (IF \A k \in Ks(i) : Done(i, k, {"ok"})
            THEN {"ok " \o (IF Len(S.tasks[i].parts) = 1 THEN Name(i, 1) ELSE IF Kind(i) = "seq" THEN Name(i, 2) ELSE Name(i, 1) \o "," \o Name(i, 2))}
            ELSE {})
CanResolve(i) == st[i] = "live" /\ ~Busy(i) /\ Results(i) # {}
Resolve(i, r) ==
    /\ CanResolve(i) /\ r \in Results(i)
    /\ st' = [st EXCEPT ![i] = "resolved"] /\ res' = [res EXCEPT ![i] = r]
    /\ UNCHANGED <<scn, part, opened, killed, hist>>

\* A task told to stop is dropped, unless it is in a closure, or done before.
CanBeDropped(i) == st[i] = "live" /\ killed[i] /\ ~Busy(i)
Dropped(i) ==
    /\ CanBeDropped(i)
    /\ st' = [st EXCEPT ![i] = "dropped"]
    /\ UNCHANGED <<scn, part, opened, killed, res, hist>>

AtRest == \A i \in Ts : ~CanResolve(i) /\ ~CanBeDropped(i) /\ \A k \in Ks(i) : ~CanStart(i, k) /\ ~CanFinish(i, k)

---------------------------------------------------------------------------
(* The environment                                                         *)

Spawn(i) == /\ st[i] = "new" /\ st' = [st EXCEPT ![i] = "live"] /\ Did("spawn", i, 0) /\ UNCHANGED <<scn, part, opened, killed, res>>
Forget(i) == /\ st[i] = "new" /\ st' = [st EXCEPT ![i] = "forgotten"] /\ Did("forget", i, 0) /\ UNCHANGED <<scn, part, opened, killed, res>>
Open(i, k) == /\ st[i] \in {"new", "live"} /\ k \in Ks(i) /\ ~opened[i][k]
              /\ opened' = [opened EXCEPT ![i][k] = TRUE] /\ Did("open", i, k) /\ UNCHANGED <<scn, st, part, killed, res>>
Kill(i) == /\ st[i] = "live" /\ ~killed[i] /\ killed' = [killed EXCEPT ![i] = TRUE] /\ Did("kill", i, 0) /\ UNCHANGED <<scn, st, part, opened, res>>
\* The environment waits until nothing happens any more.
\* (A thread pool of tokio loses room for good when a task ends while it waits
\* for room; scenarios where that may happen, `lossy`, say nothing of room.)
Rests == IF S.lossy THEN \A i \in Ts : ~CanResolve(i) /\ ~CanBeDropped(i) /\ \A k \in Ks(i) : ~(CanStart(i, k) /\ ~Blk(i, k)) /\ ~CanFinish(i, k)
         ELSE AtRest
Settle == /\ Rests /\ Did("settle", 0, 0) /\ UNCHANGED <<scn, st, part, opened, killed, res>>
Over == \A i \in Ts : st[i] \in {"forgotten", "resolved", "dropped"}
Last(a) == Len(hist) > 0 /\ hist[Len(hist)].a = a

Work == \E i \in Ts : Dropped(i) \/ (\E r \in Results(i) : Resolve(i, r)) \/ \E k \in Ks(i) : Start(i, k) \/ Finish(i, k)
Act(i) ==
    \/ Spawn(i) \/ (S.forget /\ Forget(i)) \/ (S.kill /\ Kill(i))
    \/ \E k \in Ks(i) : (st[i] = "live" \/ S.early) /\ Open(i, k)
Generate ==
    \/ Work
    \/ ~Over /\ \E i \in Ts : Act(i)
    \/ ~Last("settle") /\ Settle
    \/ Over /\ Last("settle") /\ PrintT(ToJson([scn |-> S.id, steps |-> hist])) /\ hist' = <<>> /\ scn' = scn
            /\ st' = [i \in Ts |-> "reported"] /\ UNCHANGED <<part, opened, killed, res>>
GenSpec == Init /\ [][Generate]_bvars

\* For the properties: the environment does what it likes but opens every gate.
Next == Work \/ \E i \in Ts : Act(i)
Spec == Init /\ [][Next]_bvars
Fair == Spec /\ WF_bvars(Work) /\ \A i \in 1..6, k \in 1..2 : WF_bvars(i \in Ts /\ k \in Ks(i) /\ st[i] = "live" /\ Open(i, k))

---------------------------------------------------------------------------
(* Properties (C19)                                                        *)

\* A part's closure begins at most once and only if its task is driven:
\* parts never go back, and a task that is not driven has idle parts.
OnlyForward ==
    [][\A i \in 1..Len(part) : \A k \in 1..Len(part[i]) :
            \/ part'[i][k] = part[i][k]
            \/ st[i] = "live" /\ <<part[i][k], part'[i][k]>> \in {<<"idle", "running">>, <<"running", "done">>}]_bvars
NeverDriven == \A i \in Ts : st[i] \in {"new", "forgotten"} => \A k \in Ks(i) : part[i][k] = "idle"
Room == Blocked <= S.cap
\* What a task resolves to is what its parts came to.
ExactResult ==
    \A i \in Ts : st[i] = "resolved" =>
        LET outs == {Out(i, k) : k \in {k \in Ks(i) : part[i][k] = "done"}}
        IN  /\ (\A k \in Ks(i) : part[i][k] = "done" /\ Out(i, k) = "ok") <=> (\E k \in Ks(i) : res[i] \in {"ok " \o Name(i, k), "ok " \o Name(i, 1) \o "," \o Name(i, 2)})
            /\ \A k \in Ks(i) : res[i] = "err " \o Name(i, k) => Out(i, k) = "err" /\ part[i][k] = "done"
\* Blocked closures hold up nothing but closures: asynchronous parts go on.
LightGoesOn == AtRest => \A i \in Ts, k \in 1..2 : (k \in Ks(i) /\ st[i] = "live" /\ ~Blk(i, k) /\ ~Busy(i) /\ opened[i][k] /\ ~Failed(i) /\ (Kind(i) # "seq" \/ k = 1)) => part[i][k] = "done"
\* As soon as there is room a waiting closure begins.
RoomIsUsed == AtRest => (Blocked = S.cap \/ \A i \in Ts : st[i] = "live" => \A k \in Ks(i) : (Blk(i, k) /\ part[i][k] = "idle" /\ ~Busy(i) /\ ~Failed(i)) => Kind(i) = "seq" /\ k = 2 /\ part[i][1] # "done")
\* Every driven task comes to an end.
AllEnd == \A i \in 1..6 : [](i \in Ts /\ st[i] = "live" => <>(i \in Ts => st[i] # "live"))
=============================================================================
