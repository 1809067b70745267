------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* The compile-time half: how `#[derive(FromRequest)]` reads a             *)
(* declaration, one step per stage of the macro, up to a verdict and the   *)
(* route table.  One behaviour per declaration of the input file; at its   *)
(* end the verdict is printed for the conformance harness.                 *)
(*                                                                         *)
(* Invariants: the verdict is "accept" exactly for the declarations that   *)
(* are WellFormed, and the table built answers every method on every class *)
(* of paths with the variant that Lookup names.                            *)
(***************************************************************************)
EXTENDS Decl, Json, IOUtils

Decls == TLCEval(ndJsonDeserialize(IOEnv.VERIF_DECLS))

VARIABLES D,        \* the declaration being read
          pc,       \* stage
          vi, fi,     \* variant and field (or route) being read
          table,    \* classes of paths: <<[pat, map]>>, map: method -> variant
          fb,       \* the fallback variant, 0 if none (yet)
          why       \* reason of refusal, "" while accepted

vars == <<D, pc, vi, fi, table, fb, why>>

V == D.variants[vi]
NV == Len(D.variants)

Init == /\ \E k \in 1..Len(Decls) : D = Read(Decls[k])
        /\ pc = "item" /\ vi = 1 /\ fi = 1 /\ table = <<>> /\ fb = 0 /\ why = ""

Refuse(reason) == pc' = "done" /\ why' = reason /\ UNCHANGED <<D, vi, fi, table, fb>>
Goto(p, vv, ii) == pc' = p /\ vi' = vv /\ fi' = ii /\ UNCHANGED <<D, table, fb, why>>

\* Attributes of the item.
ParseItem ==
    /\ pc = "item"
    /\ LET ctx == SelectSeq(D.attrs, LAMBDA a : a.n = "context")
       IN  IF D.kind = "union" THEN Refuse("union")
           ELSE IF \E a \in Range(ctx) : a.form # "ty" THEN Refuse("context without type")
           ELSE IF Len(ctx) > 1 THEN Refuse("several contexts")
           ELSE IF D.kind = "enum" /\ \E a \in Range(D.attrs) : a.n \in OurAttrs \ {"context"}
                THEN Refuse("attribute not valid on enums")
           ELSE IF NV = 0 THEN Goto("construct", 1, 1)
           ELSE Goto("variant", 1, 1)

\* Attributes of a variant: the routes.
ParseVariantAttrs ==
    /\ pc = "variant"
    /\ LET as == VarAttrs(D, vi)
           bad == {a \in Range(as) : a.n \in OurAttrs /\ ~(a.n \in Methods /\ a.form \in ListForms)}
           rs == {a \in Range(as) : a.n \in Methods /\ a.form \in ListForms}
       IN  IF bad # {} THEN Refuse("attribute not valid here")
           ELSE IF \E a \in rs : a.form # "str" THEN Refuse("route needs one path")
           ELSE IF \E a \in rs : ~PatOf(D, vi, a).ok THEN Refuse("malformed path")
           ELSE Goto("placeholders", vi, 1)

CheckPlaceholders ==
    /\ pc = "placeholders"
    /\ LET rs == RoutesAt(D, vi)
       IN  IF \E k \in 2..Len(rs) : rs[k].pat.names # rs[1].pat.names THEN Refuse("different placeholders")
           ELSE IF \E n \in Range(PhNames(D, vi)) : ~\E f \in Range(V.fields) : f.n = n
                THEN Refuse("placeholder without field")
           ELSE Goto("field", vi, 1)

\* Attributes of one field.
ParseField ==
    /\ pc = "field"
    /\ IF fi > Len(V.fields) THEN Goto("fields done", vi, 1)
       ELSE LET f  == V.fields[fi]
                as == SelectSeq(f.attrs, LAMBDA a : a.n \in OurAttrs)
                earlier(r) == \E k \in 1..(fi - 1) : HasRole(V.fields[k], r)
            IN  IF \E a \in Range(as) : ~(a.n \in RoleAttrs /\ a.form = "word")
                THEN Refuse("attribute not valid on fields")
                ELSE IF as # <<>> /\ f.n = "" THEN Refuse("role of an unnamed field")
                ELSE IF \E a \in Range(as) : earlier(a.n) THEN Refuse("role given twice")
                ELSE IF Len(as) > 1 THEN Refuse("several roles")
                ELSE IF Len(as) = 1 /\ f.n \in Range(PhNames(D, vi)) THEN Refuse("role of a placeholder")
                ELSE Goto("field", vi, fi + 1)

FinishVariant ==
    /\ pc = "fields done"
    /\ LET has(r) == \E f \in Range(V.fields) : HasRole(f, r)
           routed == RoutesAt(D, vi) # <<>>
       IN  IF has("body") /\ has("forward") THEN Refuse("body and forward")
           ELSE IF ~routed /\ has("body") THEN Refuse("body without route")
           ELSE IF ~routed /\ has("query_params") THEN Refuse("query without route")
           ELSE IF (routed \/ has("forward")) /\ V.shape = "tuple" THEN Refuse("tuple variant")
           ELSE IF vi < NV THEN Goto("variant", vi + 1, 1)
           ELSE Goto("build", 1, 1)

\* The table so far, as a list of classes of paths with a method map each.
ClassOf(t, pat) == {k \in 1..Len(t) : SameClass(t[k].pat, pat)}
AddTo(t, pat, m, var) ==
    IF ClassOf(t, pat) = {} THEN Append(t, [pat |-> pat, map |-> (m :> var)])
    ELSE LET k == CHOOSE k \in ClassOf(t, pat) : TRUE
         IN  [t EXCEPT ![k].map = @ @@ (m :> var)]

\* One route (or the fallback) of one variant is registered.
Build ==
    /\ pc = "build"
    /\ IF vi > NV THEN Goto("head", 1, 1)
       ELSE LET rs == RoutesAt(D, vi)
                isFb == rs = <<>> /\ FieldIdx(D, vi, "forward") # {}
            IN  IF fi = 1 /\ isFb /\ fb # 0 THEN Refuse("several fallbacks")
                ELSE IF fi > Len(rs)
                THEN /\ fb' = IF isFb THEN vi ELSE fb
                     /\ vi' = vi + 1 /\ fi' = 1 /\ UNCHANGED <<D, pc, table, why>>
                ELSE LET r == rs[fi]
                         same == ClassOf(table, r.pat)
                     IN  IF \E k \in 1..Len(table) : k \notin same /\ FindOverlap(table[k].pat, r.pat)
                         THEN Refuse("overlap")
                         ELSE IF \E k \in same : r.m \in DOMAIN table[k].map THEN Refuse("duplicate")
                         ELSE /\ table' = AddTo(table, r.pat, r.m, vi)
                              /\ fi' = fi + 1 /\ UNCHANGED <<D, pc, vi, fb, why>>

\* GET routes also answer HEAD, unless some HEAD route competes.
ImplyHead ==
    /\ pc = "head"
    /\ LET heads == {k \in 1..Len(table) : "HEAD" \in DOMAIN table[k].map}
           implied == {k \in 1..Len(table) : /\ "GET" \in DOMAIN table[k].map
                                             /\ ~\E h \in heads : FindOverlap(table[h].pat, table[k].pat)}
       IN  table' = [k \in 1..Len(table) |->
                        IF k \in implied
                        THEN [table[k] EXCEPT !.map = @ @@ ("HEAD" :> table[k].map["GET"])]
                        ELSE table[k]]
    /\ pc' = "construct" /\ UNCHANGED <<D, vi, fi, fb, why>>

CheckConstructible ==
    /\ pc = "construct"
    /\ IF \E k \in 1..NV : Constructible(D, k) THEN Goto("done", 1, 1) ELSE Refuse("nothing to construct")

Report ==
    /\ pc = "done"
    /\ PrintT(ToJson([case |-> D.id, verdict |-> IF why = "" THEN "accept" ELSE "refuse", why |-> why]))
    /\ pc' = "reported" /\ UNCHANGED <<D, vi, fi, table, fb, why>>

Idle == pc = "reported" /\ UNCHANGED vars

Next == \/ ParseItem \/ ParseVariantAttrs \/ CheckPlaceholders \/ ParseField \/ FinishVariant
        \/ Build \/ ImplyHead \/ CheckConstructible \/ Report \/ Idle
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------

VerdictIsRight == pc = "done" => ((why = "") <=> WellFormed(D))

\* Every class of paths answers each method with the variant the
\* declaration names for it, and with no other.
TableIsRight ==
    (pc = "done" /\ why = "") =>
        LET rs == AllRoutes(D)
            declared(k, m) == {j \in 1..Len(rs) : rs[j].m = m /\ SameClass(rs[j].pat, table[k].pat)}
        IN  /\ \A j \in 1..Len(rs) : \E k \in 1..Len(table) : SameClass(rs[j].pat, table[k].pat)
            /\ \A k \in 1..Len(table) : \A m \in AllMethodNames :
                  LET want == IF declared(k, m) # {} THEN {rs[j].v : j \in declared(k, m)}
                              ELSE IF m = "HEAD" THEN {rs[j].v : j \in declared(k, "GET")}
                              ELSE {}
                      got  == IF m \in DOMAIN table[k].map THEN {table[k].map[m]} ELSE {}
                  IN  got = want
            /\ \A k, l \in 1..Len(table) : k # l => ~Overlap(table[k].pat, table[l].pat)
            /\ fb = (IF Fallbacks(D) = {} THEN 0 ELSE CHOOSE x \in Fallbacks(D) : TRUE)
=============================================================================
