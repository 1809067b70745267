--------------------------- MODULE BlockingTrace ---------------------------
(***************************************************************************)
(* Recorded runs of the real thread pool as behaviours of Blocking: each   *)
(* scenario carries the events of a run, in the order they happened; a run *)
(* that is no behaviour of the specification is not accepted.              *)
(***************************************************************************)
EXTENDS Blocking

VARIABLE at
Trace == S.trace
E == Trace[at + 1]
TInit == Init /\ at = 0
Matches ==
    CASE E.e = "spawn" -> Spawn(E.i)
      [] E.e = "forget" -> Forget(E.i)
      [] E.e = "open" -> Open(E.i, E.k)
      [] E.e = "kill" -> Kill(E.i)
      [] E.e = "settle" -> Settle
      [] E.e = "start" -> Start(E.i, E.k)
      [] E.e = "finish" -> Finish(E.i, E.k)
      [] E.e = "resolve" -> Resolve(E.i, E.r)
      [] E.e = "dropped" -> Dropped(E.i)
      [] OTHER -> FALSE
TNext ==
    /\ at < Len(Trace) /\ Matches /\ at' = at + 1
    /\ (at + 1 = Len(Trace) \/ IOEnv.VERIF_VERBOSE = "yes") => PrintT(ToJson([scn |-> S.id, at |-> at + 1]))
TSpec == TInit /\ [][TNext]_<<bvars, at>>
=============================================================================
