------------------------------ MODULE Context ------------------------------
(***************************************************************************)
(* Contexts and the parts of them that are given to guards, bodies and     *)
(* nested routers.                                                         *)
(*                                                                         *)
(* A program declares a context type, maybe with type parameters, and      *)
(* routers that use an instance of it.  The specification says whether the *)
(* program is well formed, and which part each guard or body sees when     *)
(* several requests, each with a context value of its own, are served in   *)
(* turns.                                                                  *)
(*                                                                         *)
(* Types are terms [h: head, a: arguments]; a head that is one of the      *)
(* declaration's parameters stands for any type.                           *)
(*                                                                         *)
(* Input: programs  [id, kind, name, params, args, attrs, fields:          *)
(*                   <<[ty, refs]>>, variants: <<[attrs, fields]>>,        *)
(*                   looks: <<type>>, router: [ctx, routes: <<asks>>]]     *)
(*                  where an ask is [who, ty] or [who: "nested", sub:      *)
(*                  router]; refs and attrs list the forms of the as_ref   *)
(*                  attributes in that place                               *)
(*        runs      [id, prog, reqs: <<[route, ctx, via]>>]                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

ASSUME TLCSet(1, TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT)))
Programs == TLCGet(1).programs
Runs == TLCGet(1).runs
Idx(s) == 1..Len(s)

---------------------------------------------------------------------------
(* Types                                                                   *)

Base == {[h |-> n, a |-> <<>>] : n \in {"u8", "String", "NoContext", "P0", "P1", "P2", "P3", "Q0"}}
Ground == Base \cup {[h |-> "W", a |-> <<t>>] : t \in Base}

RECURSIVE Inst(_, _)
Inst(t, s) == IF t.h \in DOMAIN s THEN s[t.h] ELSE [h |-> t.h, a |-> [i \in DOMAIN t.a |-> Inst(t.a[i], s)]]

ParamsOf(p) == {p.params[i] : i \in Idx(p.params)}
Choices(p) == [ParamsOf(p) -> Ground]
Used(p) == [x \in ParamsOf(p) |-> p.args[CHOOSE i \in Idx(p.params) : p.params[i] = x]]
Self(p, s) == [h |-> p.name, a |-> [i \in Idx(p.params) |-> s[p.params[i]]]]
None == [h |-> "NoContext", a |-> <<>>]

---------------------------------------------------------------------------
(* Parts.  Part 0 is the whole context, part i its i-th field, and -1 (here *)
(* Nothing) the empty context.                                             *)

Nothing == 999
Marked(p) == IF p.kind = "struct" THEN {i \in Idx(p.fields) : p.fields[i].refs # <<>>} ELSE {}
PartIds(p) == Marked(p) \cup {0, Nothing}
TypeOf(p, i, s) == IF i = 0 THEN Self(p, s) ELSE IF i = Nothing THEN None ELSE Inst(p.fields[i].ty, s)

\* The parts of a type, in the instance the routers use.
Candidates(p, ty) == {i \in PartIds(p) : TypeOf(p, i, Used(p)) = Inst(ty, Used(p))}
PartFor(p, ty) == CHOOSE i \in Candidates(p, ty) : TRUE

---------------------------------------------------------------------------
(* Well-formedness                                                         *)

Somewhere(xs) == \E i \in Idx(xs) : xs[i] # <<>>
\* The attribute belongs on fields of structs.
Misplaced(p) ==
    \/ p.attrs # <<>>
    \/ p.kind = "enum" /\ \E i \in Idx(p.variants) :
           p.variants[i].attrs # <<>> \/ Somewhere([k \in Idx(p.variants[i].fields) |-> p.variants[i].fields[k].refs])
Misspelled(p) == p.kind = "struct" /\ \E i \in Idx(p.fields) : \E k \in Idx(p.fields[i].refs) : p.fields[i].refs[k] # "word"
Repeated(p) == \E i \in Marked(p) : Len(p.fields[i].refs) > 1
\* No instance may have two parts of one type.
Ambiguous(p) == \E s \in Choices(p) : \E i, k \in PartIds(p) : i # k /\ TypeOf(p, i, s) = TypeOf(p, k, s)

RECURSIVE Asks(_, _)      \* what a route asks for, in order
Asks(r, n) ==
    LET row == r.routes[n]
        guards == SelectSeq(row, LAMBDA a : a.who \in {"guard", "quick"})
        rest == SelectSeq(row, LAMBDA a : a.who \notin {"guard", "quick"})
    IN IF rest = <<>> THEN guards ELSE IF rest[1].who = "nested" THEN guards \o Asks(rest[1].sub, n) ELSE guards \o rest

RECURSIVE SameContext(_, _)     \* a router can only be nested in one with the same context
SameContext(p, r) ==
    /\ Inst(r.ctx, Used(p)) = Self(p, Used(p))
    /\ \A n \in Idx(r.routes) : \A k \in Idx(r.routes[n]) : r.routes[n][k].who = "nested" => SameContext(p, r.routes[n][k].sub)

RECURSIVE AllAsked(_)           \* the types asked for anywhere in a router
AllAsked(r) == UNION {{r.routes[n][k].ty : k \in Idx(r.routes[n])}
                      \cup UNION {AllAsked(r.routes[n][k].sub) : k \in {j \in Idx(r.routes[n]) : r.routes[n][j].who = "nested"}} : n \in Idx(r.routes)}
Missing(p) == \E ty \in {p.looks[k] : k \in Idx(p.looks)} \cup AllAsked(p.router) : Candidates(p, ty) = {}

Verdict(p) ==
    IF Misplaced(p) THEN "attribute misplaced"
    ELSE IF Misspelled(p) THEN "attribute misspelled"
    ELSE IF Repeated(p) THEN "attribute repeated"
    ELSE IF Ambiguous(p) THEN "two parts of one type"
    ELSE IF ~SameContext(p, p.router) THEN "nested router with another context"
    ELSE IF Missing(p) THEN "no such part"
    ELSE "accept"

---------------------------------------------------------------------------
(* Requests served in turns                                                *)

VARIABLES job,      \* <<"judge", program>> or <<"run", run>>
          held,     \* the context that serves each request
          at,       \* how many of its asks each request has had answered
          over,     \* which requests are done
          seen,     \* what each ask was given: [of: context, part]
          hist      \* what each turn gave: [r, parts, over]
vars == <<job, held, at, over, seen, hist>>

Run == Runs[job[2]]
Prog == Programs[Run.prog]
Reqs == IF job[1] = "run" THEN Idx(Run.reqs) ELSE {}
AsksOf(r) == Asks(Prog.router, Run.reqs[r].route)

Init ==
    /\ job \in ({<<"judge", i>> : i \in IF IOEnv.VERIF_HIST = "yes" THEN {} ELSE Idx(Programs)} \cup {<<"run", i>> : i \in Idx(Runs)})
    /\ held = [r \in Reqs |-> Run.reqs[r].ctx]
    /\ at = [r \in Reqs |-> 0]
    /\ over = {} /\ hist = <<>>
    /\ seen = [r \in Reqs |-> <<>>]

\* One turn of a request: asks are answered up to the first that has to wait.
Lingers(r, k) == AsksOf(r)[k].who \in {"guard", "body", "hand"} /\ Run.reqs[r].via # "now"
Reach(r) == LET n == Len(AsksOf(r)) w == {k \in (at[r] + 1)..n : Lingers(r, k)}
            IN IF w = {} THEN n ELSE CHOOSE k \in w : \A j \in w : k <= j
Turn(r) ==
    LET to == Reach(r)
        given == [k \in 1..(to - at[r]) |-> [of |-> held[r], part |-> PartFor(Prog, AsksOf(r)[at[r] + k].ty)]]
        last == to = Len(AsksOf(r)) /\ ~(to > at[r] /\ Lingers(r, to))
    IN /\ r \in Reqs \ over
       /\ at' = [at EXCEPT ![r] = to]
       /\ seen' = [seen EXCEPT ![r] = @ \o given]
       /\ over' = IF last THEN over \cup {r} ELSE over
       /\ hist' = IF IOEnv.VERIF_HIST = "yes" THEN Append(hist, [r |-> r, parts |-> [k \in Idx(given) |-> given[k].part], over |-> last]) ELSE hist
       /\ UNCHANGED <<job, held>>
Turns == \E r \in Reqs : Turn(r)

Judge ==
    /\ job[1] = "judge"
    /\ job' = <<"judged", job[2]>>
    /\ PrintT(ToJson([case |-> Programs[job[2]].id, verdict |-> Verdict(Programs[job[2]])]))
    /\ UNCHANGED <<held, at, over, seen, hist>>
Report ==
    /\ job[1] = "run" /\ over = Reqs
    /\ job' = <<"ran", job[2]>>
    /\ IOEnv.VERIF_HIST = "yes" => PrintT(ToJson([run |-> Run.id, hist |-> hist]))
    /\ UNCHANGED <<held, at, over, seen, hist>>

Next == Turns \/ Judge \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* Properties                                                              *)

\* Whatever is asked for has exactly one answer.
OneAnswer == job[1] = "run" => \A r \in Reqs : \A k \in Idx(AsksOf(r)) : Cardinality(Candidates(Prog, AsksOf(r)[k].ty)) = 1
\* Everything that was given is part of the request's own context, and of the type asked for.
OwnContext == job[1] = "run" => \A r \in Reqs : \A k \in Idx(seen[r]) : seen[r][k].of = Run.reqs[r].ctx
RightType == job[1] = "run" => \A r \in Reqs : \A k \in Idx(seen[r]) :
                TypeOf(Prog, seen[r][k].part, Used(Prog)) = Inst(AsksOf(r)[k].ty, Used(Prog))
\* Every ask is answered once, in order.
InOrder == job[1] = "run" => \A r \in Reqs : Len(seen[r]) = at[r] /\ (r \in over => at[r] = Len(AsksOf(r)))
\* Every request gets there.
AllServed == <>(job[1] \in {"judged", "ran"})
=============================================================================
