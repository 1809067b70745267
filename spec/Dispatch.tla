------------------------------ MODULE Dispatch ------------------------------
(***************************************************************************)
(* The run-time half: what a derived router does with one request, step by *)
(* step, including routers nested through #[forward] fields.  One          *)
(* behaviour per case of the input file (a router, a request, its context  *)
(* and what its guards and its body will do); its log of calls into user   *)
(* code and its result are printed for the conformance harness.            *)
(*                                                                         *)
(* A request target is given as written ("/a?x=1", "http://h/a", "h:80",   *)
(* "*").  A case scripts the guards by type name: how often each is        *)
(* pending before it resolves, and to what.  The body is a list of pieces: *)
(* data, a pause, or a transport error.                                    *)
(***************************************************************************)
EXTENDS Decl, Values

Input == TLCEval(JsonDeserialize(IOEnv.VERIF_INPUT))
Decls == Input.decls
Cases == Input.cases

---------------------------------------------------------------------------
(* Routers, prepared once.                                                 *)

\* Classes of paths with their method maps, as built by Derive.
RECURSIVE Classes(_, _, _)
Classes(rs, j, t) ==
    IF j > Len(rs) THEN t
    ELSE LET same == {k \in 1..Len(t) : SameClass(t[k].pat, rs[j].pat)}
         IN  IF same = {} THEN Classes(rs, j + 1, Append(t, [pat |-> rs[j].pat, map |-> (rs[j].m :> rs[j].v)]))
             ELSE LET k == CHOOSE k \in same : TRUE
                  IN  Classes(rs, j + 1, [t EXCEPT ![k].map = @ @@ (rs[j].m :> rs[j].v)])
WithHead(t) ==
    [k \in 1..Len(t) |->
        IF "GET" \in DOMAIN t[k].map THEN [t[k] EXCEPT !.map = @ @@ ("HEAD" :> t[k].map["GET"])] ELSE t[k]]

TypeOf(dcl, ty) ==
    LET s == {j \in 1..Len(dcl.subst) : dcl.subst[j].n = ty}
    IN  IF s = {} THEN ty ELSE dcl.subst[CHOOSE j \in s : TRUE].ty

Digest(dcl) ==
    LET rs == AllRoutes(dcl)
    IN  [name    |-> dcl.name,
         struct  |-> dcl.kind = "struct",
         routes  |-> rs,
         classes |-> WithHead(Classes(rs, 1, <<>>)),
         fb      |-> IF Fallbacks(dcl) = {} THEN 0 ELSE CHOOSE x \in Fallbacks(dcl) : TRUE,
         vars    |-> [w \in 1..Len(dcl.variants) |->
             LET fs == dcl.variants[w].fields
                 role == [j \in 1..Len(fs) |-> Role(dcl, w, fs[j])]
                 names == PhNames(dcl, w)
             IN  [name   |-> dcl.variants[w].name,
                  fields |-> [j \in 1..Len(fs) |-> fs[j].n],
                  types  |-> [j \in 1..Len(fs) |-> TypeOf(dcl, fs[j].ty)],
                  \* the fields of the placeholders, in order of the placeholders
                  ph     |-> [k \in 1..Len(names) |-> CHOOSE j \in 1..Len(fs) : fs[j].n = names[k]],
                  guards |-> IF Constructible(dcl, w)
                             THEN SelectSeq([j \in 1..Len(fs) |-> j], LAMBDA j : role[j] = "guard")
                             ELSE <<>>,
                  query  |-> FieldWith(dcl, w, "query"),
                  body   |-> FieldWith(dcl, w, "body"),
                  fwd    |-> FieldWith(dcl, w, "forward")]]]
\* (computed once and kept in a register of TLC)
ASSUME TLCSet(1, TLCEval([r \in 1..Len(Decls) |-> Digest(Read(Decls[r]))]))
Routers == TLCGet(1)
RouterIdx == TLCEval([n \in {Decls[r].name : r \in 1..Len(Decls)} |-> CHOOSE r \in 1..Len(Decls) : Decls[r].name = n])
\* "R:Name" is the type of a nested router.
NestedRouter(ty) == RouterIdx[From(ty, 3)]

---------------------------------------------------------------------------
(* Requests                                                                *)

\* Path and query of a request target.
Target(raw0) ==
    LET raw == SubSeq(raw0, 1, Find(raw0, {"#"}, 1) - 1)
        PQ(s) == LET e == Find(s, {"?"}, 1)
                 IN  [path |-> SubSeq(s, 1, e - 1), query |-> From(s, e + 1)]
        colon == Find(raw, {":"}, 1)
        at(i) == i <= Len(raw) /\ Chr(raw, i) = "/"
    IN  IF raw = "*" THEN [path |-> "*", query |-> ""]
        ELSE IF StartsWith(raw, "/") THEN PQ(raw)
        ELSE IF at(colon + 1) /\ at(colon + 2)
             THEN LET e == Find(raw, {"/", "?"}, colon + 3)
                      pq == PQ(From(raw, e))
                  IN  [pq EXCEPT !.path = IF @ = "" THEN "/" ELSE @]
        ELSE [path |-> "", query |-> ""]

\* The view of the context a guard or body is given.
CtxView(kind, tok) ==
    CASE kind \in {"N", "I"} -> "-"
      [] kind = "A" -> "A" \o tok
      [] kind = "B" -> "B" \o tok
      [] kind = "C" -> "C" \o tok \o "/A" \o tok \o "/B" \o tok
GuardCtx(g) == Chr(g, 2)                  \* guards are named G<kind><number>
BodyCtx(b) == CASE b = "BRawA" -> "A" [] b = "BRawC" -> "C" [] OTHER -> "N"

GuardScript(cs, g) ==
    LET s == {j \in 1..Len(cs.guards) : cs.guards[j].g = g}
    IN  IF s = {} THEN [g |-> g, pend |-> 0, out |-> "ok", status |-> 0, allow |-> <<>>]
        ELSE cs.guards[CHOOSE j \in s : TRUE]

---------------------------------------------------------------------------

VARIABLES cn,       \* index of the case
          tgt,      \* path and query of its request
          frames,   \* routers at work, innermost last
          log,      \* calls into user code so far
          got,      \* what was read of the body
          pos,      \* pieces of the body consumed
          st,       \* "run", "fail" (an error is on its way out), "done", "reported"
          res       \* the result

vars == <<cn, tgt, frames, log, got, pos, st, res>>

C == Cases[cn]
Top == frames[Len(frames)]
R == Routers[Top.r]
VV == R.vars[Top.v]

\* hits: the classes of paths the request falls into, at most one (see OneClass).
Frame(r, p) == [r |-> r, hits |-> {k \in 1..Len(Routers[r].classes) : Matches(Routers[r].classes[k].pat, p)},
             v |-> 0, cls |-> 0, pc |-> "enter", i |-> 1, wait |-> 0,
             vals |-> <<>>, merge |-> FALSE, allow |-> {}]
Ok(v) == [k |-> "ok", v |-> v, status |-> 0, allow |-> {}, src |-> ""]
Lib(s, a, src) == [k |-> "lib", v |-> "", status |-> s, allow |-> a, src |-> src]
Other(src) == [k |-> "other", v |-> "", status |-> 0, allow |-> {}, src |-> src]

Init ==
    /\ cn \in 1..Len(Cases)
    /\ \E t \in {Target(Cases[cn].target)} : \E p \in {Path(t.path)} :
          /\ tgt = [path |-> p, query |-> t.query]
          /\ frames = <<Frame(RouterIdx[Cases[cn].router], p)>>
    /\ log = <<>> /\ got = "" /\ pos = 0 /\ st = "run" /\ res = Ok("")

SetTop(f) == frames' = [frames EXCEPT ![Len(frames)] = f]
Fail(e) == st' = "fail" /\ res' = e /\ UNCHANGED <<cn, tgt, frames, log, got, pos>>
Step(f) == SetTop(f) /\ UNCHANGED <<cn, tgt, log, got, pos, st, res>>

Running(pc) == st = "run" /\ Top.pc = pc

Hits == Top.hits
Choose(w, k, merge, allow) ==
    [Top EXCEPT !.v = w, !.cls = k, !.pc = "ph", !.merge = merge, !.allow = allow,
                !.vals = [j \in 1..Len(R.vars[w].fields) |-> ""]]

\* The methods for which the router would accept this very path.
ConversionsOK(w, k) ==
    LET caps == Captures(R.classes[k].pat, tgt.path)
    IN  \A j \in 1..Len(R.vars[w].ph) :
            Convert(R.vars[w].types[R.vars[w].ph[j]], caps[j]).ok
AcceptedMethods(k) == {m \in DOMAIN R.classes[k].map : ConversionsOK(R.classes[k].map[m], k)}

Hit == CHOOSE k \in Hits : TRUE

MatchRoute ==          \* path and method are known: the variant is chosen
    /\ Running("enter") /\ Hits # {} /\ C.method \in DOMAIN R.classes[Hit].map
    /\ Step(Choose(R.classes[Hit].map[C.method], Hit, FALSE, {}))
WrongMethod ==         \* the path is known, the method is not
    /\ Running("enter") /\ Hits # {} /\ C.method \notin DOMAIN R.classes[Hit].map /\ R.fb = 0
    /\ Fail(Lib(405, AcceptedMethods(Hit), ""))
WrongMethodFallback == \* ... and the fallback is asked
    /\ Running("enter") /\ Hits # {} /\ C.method \notin DOMAIN R.classes[Hit].map /\ R.fb # 0
    /\ Step(Choose(R.fb, 0, TRUE, AcceptedMethods(Hit)))
NoRoute ==
    /\ Running("enter") /\ Hits = {} /\ R.fb = 0
    /\ Fail(Lib(404, {}, ""))
NoRouteFallback ==
    /\ Running("enter") /\ Hits = {} /\ R.fb # 0
    /\ Step(Choose(R.fb, 0, FALSE, {}))

\* One placeholder after the other.
ParsePlaceholder ==
    /\ Running("ph")
    /\ IF Top.i > Len(VV.ph) THEN Step([Top EXCEPT !.pc = "query", !.i = 1])
       ELSE LET text == Captures(R.classes[Top.cls].pat, tgt.path)[Top.i]
                fld  == VV.ph[Top.i]
                ty   == VV.types[fld]
                r    == Convert(ty, text)
            IN  IF r.ok THEN Step([Top EXCEPT !.vals[fld] = r.v, !.i = @ + 1])
                ELSE Fail(Lib(404, {}, ConvertErr(ty, text)))

ParseQuery ==
    /\ Running("query")
    /\ IF VV.query = 0 THEN Step([Top EXCEPT !.pc = "guard"])
       ELSE LET r == QueryDecode(VV.types[VV.query], tgt.query)
            IN  IF r.ok THEN Step([Top EXCEPT !.vals[VV.query] = r.v, !.pc = "guard"])
                ELSE Fail(Lib(400, {}, "query"))

\* Guards, in declaration order.
TheGuard == VV.types[VV.guards[Top.i]]
StartGuard ==
    /\ Running("guard") /\ Top.i <= Len(VV.guards)
    /\ log' = Append(log, TheGuard \o "(" \o CtxView(GuardCtx(TheGuard), C.tok) \o ")")
    /\ SetTop([Top EXCEPT !.pc = "guarding", !.wait = GuardScript(C, TheGuard).pend])
    /\ UNCHANGED <<cn, tgt, got, pos, st, res>>
GuardPending ==
    /\ Running("guarding") /\ Top.wait > 0
    /\ Step([Top EXCEPT !.wait = @ - 1])
GuardPasses ==
    /\ Running("guarding") /\ Top.wait = 0 /\ GuardScript(C, TheGuard).out = "ok"
    /\ log' = Append(log, TheGuard \o "+")
    /\ SetTop([Top EXCEPT !.vals[VV.guards[Top.i]] = TheGuard \o "#" \o C.tok, !.pc = "guard", !.i = @ + 1])
    /\ UNCHANGED <<cn, tgt, got, pos, st, res>>
GuardFails ==
    /\ Running("guarding") /\ Top.wait = 0 /\ GuardScript(C, TheGuard).out # "ok"
    /\ log' = Append(log, TheGuard \o "-")
    /\ st' = "fail"
    /\ LET s == GuardScript(C, TheGuard)
       IN  res' = IF s.out = "lib"
                  THEN IF s.status = 405 THEN Lib(405, {s.allow[j] : j \in 1..Len(s.allow)}, "")
                       ELSE Lib(s.status, {}, TheGuard \o "!" \o C.tok)
                  ELSE Other(TheGuard \o "!" \o C.tok)
    /\ UNCHANGED <<cn, tgt, frames, got, pos>>
GuardsPassed ==
    /\ Running("guard") /\ Top.i > Len(VV.guards)
    /\ Step([Top EXCEPT !.pc = IF VV.fwd # 0 THEN "forward" ELSE IF VV.body # 0 THEN "body" ELSE "built", !.i = 1])

\* The request is handed to a nested router.
Forward ==
    /\ Running("forward")
    /\ frames' = Append([frames EXCEPT ![Len(frames)].pc = "forwarding"],
                        Frame(NestedRouter(VV.types[VV.fwd]), tgt.path))
    /\ UNCHANGED <<cn, tgt, log, got, pos, st, res>>

\* The body is handed to its decoder, which reads it piece by piece.
TheBody == VV.types[VV.body]
StartBody ==
    /\ Running("body")
    /\ log' = log \o (IF TheBody \in OwnBodies
                      THEN <<TheBody \o "(" \o CtxView(BodyCtx(TheBody), C.tok) \o ")">> ELSE <<>>)
                  \o (IF Reads(TheBody) THEN <<"read">> ELSE <<>>)
    /\ SetTop([Top EXCEPT !.pc = "reading"])
    /\ UNCHANGED <<cn, tgt, got, pos, st, res>>
ReadPiece ==
    /\ Running("reading") /\ Reads(TheBody) /\ pos < Len(C.body)
    /\ pos' = pos + 1
    /\ LET p == C.body[pos + 1]
       IN  CASE p.k = "d" -> got' = got \o p.t /\ UNCHANGED <<cn, tgt, frames, log, st, res>>
             [] p.k = "p" -> UNCHANGED <<cn, tgt, frames, log, got, st, res>>
             [] p.k = "e" -> st' = "fail" /\ res' = Other("hyper(" \o p.t \o ")")
                             /\ UNCHANGED <<cn, tgt, frames, log, got>>
DecodeBody ==
    /\ Running("reading") /\ (Reads(TheBody) => pos = Len(C.body))
    /\ IF TheBody = "BErr" THEN Fail(Lib(422, {}, "BErr!" \o C.tok))
       ELSE LET r == IF TheBody = "BIgn" THEN Yes("") ELSE BodyDecode(TheBody, got)
            IN  IF ~r.ok THEN Fail(Other(BodyErr(TheBody)))
                ELSE Step([Top EXCEPT !.vals[VV.body] = TheBody \o "(" \o r.v \o ")", !.pc = "built"])

\* The value is complete; a nested one becomes a field of the outer one.
ValueText ==
    R.name \o (IF R.struct THEN "" ELSE "::" \o VV.name)
    \o "{" \o Join([j \in 1..Len(VV.fields) |-> VV.fields[j] \o "=" \o Top.vals[j]], ";") \o "}"
Build ==
    /\ Running("built")
    /\ IF Len(frames) = 1
       THEN st' = "done" /\ res' = Ok(ValueText) /\ UNCHANGED <<cn, tgt, frames, log, got, pos>>
       ELSE LET n == Len(frames) - 1
                p == frames[n]
                fld == Routers[p.r].vars[p.v].fwd
            IN  /\ frames' = Append(SubSeq(frames, 1, n - 1), [p EXCEPT !.vals[fld] = ValueText, !.pc = "built"])
                /\ UNCHANGED <<cn, tgt, log, got, pos, st, res>>

\* An error leaves the innermost router; if that had only asked its fallback
\* because of the method, a 405 also lists the methods it accepts itself.
Unwind ==
    /\ st = "fail" /\ frames # <<>>
    /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
    /\ res' = IF Top.merge /\ res.k = "lib" /\ res.status = 405
              THEN Lib(405, res.allow \cup Top.allow, "*") ELSE res
    /\ UNCHANGED <<cn, tgt, log, got, pos, st>>
Failed == st = "fail" /\ frames = <<>> /\ st' = "done" /\ UNCHANGED <<cn, tgt, frames, log, got, pos, res>>

\* Where the body is: with the router at work until a decoder is given it, gone once the
\* request is decided, whether it was read or not.
BodyAt == IF st # "run" \/ Top.pc = "built" THEN "gone"
          ELSE IF Top.pc = "reading" THEN "decoder" ELSE "router"

MethodOrder == <<"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH">>
Report ==
    /\ st = "done"
    /\ PrintT(ToJson([case |-> C.id, log |-> log, body |-> BodyAt,
                      res |-> [k |-> res.k, v |-> res.v, status |-> res.status, src |-> res.src,
                               allow |-> SelectSeq(MethodOrder, LAMBDA m : m \in res.allow)]]))
    /\ st' = "reported" /\ UNCHANGED <<cn, tgt, frames, log, got, pos, res>>
Idle == st = "reported" /\ UNCHANGED vars

Next ==
    \/ MatchRoute \/ WrongMethod \/ WrongMethodFallback \/ NoRoute \/ NoRouteFallback
    \/ ParsePlaceholder \/ ParseQuery
    \/ StartGuard \/ GuardPending \/ GuardPasses \/ GuardFails \/ GuardsPassed
    \/ Forward \/ StartBody \/ ReadPiece \/ DecodeBody \/ Build
    \/ Unwind \/ Failed \/ Report \/ Idle
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties                                                              *)

PathOf == tgt.path

\* C02: every path falls into at most one class of an accepted router.
OneClass == (st = "run" /\ Top.pc = "enter") => Cardinality(Hits) <= 1

\* C03, C04: the variant at work is the one the declarations name for this
\* method and path (implicit HEAD included); the fallback works only if they
\* name none.
JustChosen == st = "run" /\ Top.pc = "ph" /\ Top.i = 1     \* (the choice is never revised)
RightVariant ==
    JustChosen =>
        LET want == Lookup(R.routes, C.method, PathOf)
        IN  IF want # 0 THEN Top.v = want /\ ~Top.merge /\ Top.cls # 0
            ELSE Top.v = R.fb /\ R.fb # 0 /\ Top.cls = 0

\* C03: refused requests run nothing; at depth one the status tells why.
RefusedRunsNothing ==
    (st = "fail" /\ Len(frames) = 1 /\ Top.v = 0) =>
        /\ log = <<>>
        /\ res.status = (IF PathKnown(R.routes, PathOf) THEN 405 ELSE 404)

\* C05: a router refusing the method itself lists exactly the methods it
\* would route this path for, by the declarations.
AllowIsExact ==
    (st = "fail" /\ frames # <<>> /\ Top.v = 0 /\ res.status = 405) =>
        res.allow = {m \in AllMethodNames :
                        LET w == Lookup(R.routes, m, PathOf)
                        IN  w # 0 /\ LET k == CHOOSE k \in Hits : TRUE IN ConversionsOK(w, k)}
\* C05: what a wrong-method fallback adds is what this router accepts itself.
MergeIsExact ==
    (JustChosen /\ Top.merge) =>
        /\ PathKnown(R.routes, PathOf)
        /\ Top.allow = {m \in AllMethodNames :
                            LET w == Lookup(R.routes, m, PathOf) IN w # 0 /\ ConversionsOK(w, Hit)}
        /\ C.method \notin Top.allow

\* C08, C09: user code runs in order: guards one at a time, in declaration
\* order, outer routers first; the body after the last guard, at most once.
IsCall(e) == EndsWith(e, ")") /\ StartsWith(e, "G")
IsPass(e) == EndsWith(e, "+")
CallsThenPasses ==
    \A j \in 1..Len(log) : (IsCall(log[j]) \/ log[j] = "read" \/ StartsWith(log[j], "B")) =>
        \A l \in 1..(j - 1) : IsCall(log[l]) => \E n \in (l + 1)..(j - 1) : IsPass(log[n])
BodyReadOnce ==
    Cardinality({j \in 1..Len(log) : log[j] = "read"}) <= 1
BodyUntouched ==
    (pos > 0 \/ \E j \in 1..Len(log) : log[j] = "read") =>
        \A j \in 1..Len(log) : (IsCall(log[j]) \/ IsPass(log[j])) =>
            ~\E l \in 1..(j - 1) : log[l] = "read"

\* C08: a value is built only when every guard of every variant in it passed.
GuardsBeforeValue ==
    (st = "run" /\ Top.pc \in {"built", "body", "reading", "forward", "forwarding"}) =>
        \A j \in 1..Len(VV.guards) :
            \E l \in 1..Len(log) : log[l] = VV.types[VV.guards[j]] \o "+"

\* C10: a router works on one variant, once: a route that failed never falls
\* back, an error leaves through every router it passed.
NoLateFallback == [][\A j \in 1..Len(frames) :
    (frames[j].v # 0 /\ j <= Len(frames')) => /\ frames'[j].v = frames[j].v /\ frames'[j].cls = frames[j].cls]_vars
NoReturn == [][st = "fail" => Len(frames') <= Len(frames)]_vars

\* C09: nothing is read of a body that no decoder has been given.
ReadByDecoder == [][pos' # pos => BodyAt = "decoder"]_vars

\* C09: complete bodies only.
WholeBody ==
    (st = "done" /\ res.k = "ok" /\ \E j \in 1..Len(log) : log[j] = "read") =>
        /\ pos = Len(C.body)
        /\ got = Join([j \in 1..Len(C.body) |-> IF C.body[j].k = "d" THEN C.body[j].t ELSE ""], "")

Terminates == <>(st = "reported")
=============================================================================
