-------------------------------- MODULE Body --------------------------------
(***************************************************************************)
(* One request body on its way into one of the library's decoders (Json,   *)
(* HtmlForm).  The connection delivers the document in chunks of any size  *)
(* (empty ones included), may end with a transport error anywhere, and the *)
(* decoder is polled whenever the executor likes to: before anything       *)
(* arrived, after every chunk, or after several.  Every document of the    *)
(* input file is explored with every way to deliver and poll it (within    *)
(* the bounds given with the document); each complete behaviour is printed *)
(* and replayed, poll by poll, against the real decoders.                  *)
(***************************************************************************)
EXTENDS Values

Docs == TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT).docs)

\* A piece of a document is the sequence of the positions of its characters.
TextAt(ps, t) == Join([j \in 1..Len(ps) |-> Chr(t, ps[j])], "")

VARIABLES dn,     \* the document
          sent,   \* how much of it the connection has delivered
          fin,    \* what ended the delivery: "no" (nothing yet), "end", "err"
          queue,  \* delivered, but not yet seen by the decoder
          acc,    \* what the decoder has collected
          st,     \* "wait" until the decoder resolves to "ok" or "error"
          out,    \* what its error is about
          idle,   \* polls that found nothing new
          none,   \* empty chunks so far
          told    \* whether the task was woken since its last poll (or never polled)
bvars == <<dn, sent, fin, queue, acc, st, out, idle, none, told>>
VARIABLE hist     \* the behaviour, for the replay

D == Docs[dn]
Init ==
    /\ dn \in 1..Len(Docs)
    /\ sent = 0 /\ fin = "no" /\ queue = <<>> /\ acc = <<>> /\ st = "wait" /\ out = ""
    /\ idle = 0 /\ none = 0 /\ told = TRUE /\ hist = <<>>

Note(e, n) == hist' = Append(hist, [e |-> e, n |-> n, s |-> ""])

\* The connection delivers the next n characters.
Deliver(n) ==
    /\ st = "wait" /\ fin = "no"
    /\ sent + n <= Len(D.t)
    /\ IF n = 0 THEN none < D.none /\ none' = none + 1 ELSE none' = none
    /\ queue' = Append(queue, [j \in 1..n |-> sent + j])
    /\ Note("d", n)
    /\ sent' = sent + n /\ told' = TRUE
    /\ UNCHANGED <<dn, fin, acc, st, out, idle>>
End ==
    /\ st = "wait" /\ fin = "no" /\ sent = Len(D.t)
    /\ fin' = "end" /\ told' = TRUE /\ Note("end", 0)
    /\ UNCHANGED <<dn, sent, queue, acc, st, out, idle, none>>
Break ==
    /\ st = "wait" /\ fin = "no" /\ D.brk
    /\ fin' = "err" /\ told' = TRUE /\ Note("err", 0)
    /\ UNCHANGED <<dn, sent, queue, acc, st, out, idle, none>>

\* The executor polls the decoder: it takes all there is.
All == acc \o FlattenSeq(queue)
Decoded(ps) == BodyDecode(Docs[IF dn > 0 THEN dn ELSE -dn].ty, TextAt(ps, Docs[IF dn > 0 THEN dn ELSE -dn].t))
Poll ==
    /\ st = "wait"
    /\ told \/ idle < D.idle
    /\ idle' = IF told THEN idle ELSE idle + 1
    /\ queue' = <<>> /\ told' = FALSE
    /\ acc' = All
    /\ CASE fin = "no"  -> st' = "wait" /\ out' = ""
         [] fin = "err" -> st' = "error" /\ out' = "transport"
         [] fin = "end" -> IF Decoded(All).ok THEN st' = "ok" /\ out' = ""
                           ELSE st' = "error" /\ out' = BodyErr(D.ty)
    /\ hist' = Append(hist, [e |-> "poll", n |-> 0, s |-> st'])
    /\ UNCHANGED <<dn, sent, fin, none>>

Report ==
    /\ st # "wait" /\ dn > 0
    /\ PrintT(ToJson([doc |-> D.id, steps |-> hist,
                      v |-> IF st = "ok" THEN Decoded(acc).v ELSE out]))
    /\ dn' = -dn /\ UNCHANGED <<sent, fin, queue, acc, st, out, idle, none, told, hist>>

Next == dn > 0 /\ ((\E n \in 0..D.max : Deliver(n)) \/ End \/ Break \/ Poll \/ Report)
Spec == Init /\ [][Next]_<<bvars, hist>> /\ WF_<<bvars, hist>>(dn > 0 /\ (End \/ Break \/ Poll \/ Report \/ (\E n \in 1..D.max : Deliver(n))))

---------------------------------------------------------------------------
(* Properties                                                              *)

Doc == Docs[IF dn > 0 THEN dn ELSE -dn]
\* C11: it resolves only once the body ended (or broke off) ...
NotEarly == st # "wait" => fin # "no" /\ queue = <<>>
\* ... to what the whole document means, however it was delivered ...
Whole == (st # "wait" /\ fin = "end") =>
            /\ TextAt(acc, Doc.t) = Doc.t
            /\ LET r == BodyDecode(Doc.ty, Doc.t)
               IN  IF r.ok THEN st = "ok" /\ Decoded(acc) = r ELSE st = "error" /\ out # "transport"
\* ... and a body that breaks off never yields a value.
NoPrefix == (st # "wait" /\ fin = "err") => st = "error" /\ out = "transport"
\* Nothing is lost, doubled or reordered on the way.
InOrder == All = [j \in 1..sent |-> j]
\* The decoder is never left waiting with something to see and no wake-up.
NoLostWakeup == (st = "wait" /\ ~told) => queue = <<>> /\ fin = "no"
Resolves == <>(st # "wait")
\* Behaviours end only after they were reported.
NoDeadlock == dn > 0 => ENABLED Next
=============================================================================
