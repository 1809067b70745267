-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Declarations of routers, as a user writes them, and what they mean:     *)
(* which of them are well formed, which field plays which part, which      *)
(* route answers a method and a path.  Everything here is declarative; the *)
(* step-by-step processing is in Derive (compile time) and Dispatch (run   *)
(* time), and checked against these definitions.                           *)
(*                                                                         *)
(* A declaration is                                                        *)
(*   [id, kind: "enum"|"struct"|"union", attrs: <<attr>>,                  *)
(*    variants: <<[name, shape: "unit"|"named"|"tuple", attrs,             *)
(*                 fields: <<[n, ty, attrs]>>]>>]                          *)
(* (a struct has one variant, whose attributes are those of the item), an  *)
(* attribute is [n: name, form, a: argument], where form tells how it is   *)
(* written: word #[n], str #[n("a")], nv #[n = "a"], ty #[n(Type)], and    *)
(* empty, two, id, int for other (ill-formed) argument lists.              *)
(***************************************************************************)
EXTENDS PathText

Methods == {"get", "head", "post", "put", "delete", "connect", "options", "trace", "patch"}
MethodName ==
    [get |-> "GET", head |-> "HEAD", post |-> "POST", put |-> "PUT", delete |-> "DELETE",
     connect |-> "CONNECT", options |-> "OPTIONS", trace |-> "TRACE", patch |-> "PATCH"]
AllMethodNames == {MethodName[m] : m \in Methods}
RoleAttrs == {"body", "forward", "query_params"}
OurAttrs  == Methods \cup RoleAttrs \cup {"context"}

ListForms == {"str", "ty", "empty", "two", "id", "int"}

\* The attributes that apply to variant v.
VarAttrs(d, v) ==
    IF d.kind = "struct" THEN SelectSeq(d.attrs, LAMBDA a : a.n # "context") ELSE d.variants[v].attrs

RouteAttrs(d, v) == SelectSeq(VarAttrs(d, v), LAMBDA a : a.n \in Methods /\ a.form \in ListForms)

\* A declaration with its patterns read: routes[v] are the routes of variant
\* v in declaration order, ph[v] the names of their placeholders.
Read(d) ==
    LET pats == [v \in 1..Len(d.variants) |->
                    LET as == RouteAttrs(d, v)
                    IN  [i \in 1..Len(as) |-> [v |-> v, m |-> MethodName[as[i].n], pat |-> Pattern(as[i].a)]]]
    IN  d @@ [routes |-> pats,
              ph     |-> [v \in 1..Len(d.variants) |-> IF pats[v] = <<>> THEN <<>> ELSE pats[v][1].pat.names]]
RoutesAt(d, v) == d.routes[v]
PhNames(d, v) == d.ph[v]
\* The pattern read from one of the route attributes of v.
PatOf(d, v, a) == LET as == RouteAttrs(d, v) IN d.routes[v][CHOOSE i \in 1..Len(as) : as[i] = a].pat

RECURSIVE ConcatTo(_, _)
ConcatTo(f, n) == IF n = 0 THEN <<>> ELSE ConcatTo(f, n - 1) \o f[n]
AllRoutes(d) == ConcatTo([v \in 1..Len(d.variants) |-> RoutesAt(d, v)], Len(d.variants))

HasRole(f, role) == \E a \in Range(f.attrs) : a.n = role /\ a.form = "word"
\* How often a field is given a part to play.
RoleCount(d, v, f) ==
    Len(SelectSeq(f.attrs, LAMBDA a : a.n \in RoleAttrs /\ a.form = "word"))
    + (IF f.n # "" /\ f.n \in Range(PhNames(d, v)) THEN 1 ELSE 0)
Role(d, v, f) ==
    CASE f.n # "" /\ f.n \in Range(PhNames(d, v)) -> "ph"
      [] HasRole(f, "body")                       -> "body"
      [] HasRole(f, "query_params")               -> "query"
      [] HasRole(f, "forward")                    -> "forward"
      [] OTHER                                    -> "guard"

FieldIdx(d, v, role) ==
    {i \in 1..Len(d.variants[v].fields) : Role(d, v, d.variants[v].fields[i]) = role}
FieldWith(d, v, role) == LET S == FieldIdx(d, v, role) IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

Constructible(d, v) == RoutesAt(d, v) # <<>> \/ FieldIdx(d, v, "forward") # {}
Fallbacks(d) == {v \in 1..Len(d.variants) : RoutesAt(d, v) = <<>> /\ FieldIdx(d, v, "forward") # {}}

---------------------------------------------------------------------------
(* The rules of the documentation.                                         *)

ItemOK(d) ==
    /\ d.kind # "union"
    /\ Len(SelectSeq(d.attrs, LAMBDA a : a.n = "context")) <= 1
    /\ \A a \in Range(d.attrs) : a.n = "context" => a.form = "ty"
    /\ d.kind = "enum" => \A a \in Range(d.attrs) : a.n \in OurAttrs => a.n = "context"

VarAttrsOK(d, v) ==
    \A a \in Range(VarAttrs(d, v)) : a.n \in OurAttrs =>
        /\ a.n \in Methods          \* a route, given as one path ...
        /\ a.form = "str"
        /\ PatOf(d, v, a).ok        \* ... that is well formed

PlaceholdersOK(d, v) ==
    LET rs == RoutesAt(d, v)
    IN  /\ \A i \in 1..Len(rs) : rs[i].pat.names = rs[1].pat.names
        /\ \A n \in Range(PhNames(d, v)) : \E f \in Range(d.variants[v].fields) : f.n = n

FieldsOK(d, v) ==
    LET fs == d.variants[v].fields
    IN  /\ \A i \in 1..Len(fs) :
              /\ \A a \in Range(fs[i].attrs) :
                    a.n \in OurAttrs => a.n \in RoleAttrs /\ a.form = "word" /\ fs[i].n # ""
              /\ RoleCount(d, v, fs[i]) <= 1
        /\ \A r \in RoleAttrs : Cardinality({i \in 1..Len(fs) : HasRole(fs[i], r)}) <= 1

VariantOK(d, v) ==
    LET has(r) == \E f \in Range(d.variants[v].fields) : HasRole(f, r)
    IN  /\ VarAttrsOK(d, v)
        /\ PlaceholdersOK(d, v)
        /\ FieldsOK(d, v)
        /\ ~(has("body") /\ has("forward"))
        /\ RoutesAt(d, v) = <<>> => ~has("body") /\ ~has("query_params")
        /\ Constructible(d, v) => d.variants[v].shape # "tuple"

\* No request can be claimed by two routes.
Unambiguous(d) ==
    LET rs == AllRoutes(d)
    IN  \A i, j \in 1..Len(rs) : i < j =>
            IF SameClass(rs[i].pat, rs[j].pat) THEN rs[i].m # rs[j].m
                                               ELSE ~Overlap(rs[i].pat, rs[j].pat)

WellFormed(d) ==
    /\ ItemOK(d)
    /\ \A v \in 1..Len(d.variants) : VariantOK(d, v)
    /\ Cardinality(Fallbacks(d)) <= 1
    /\ \E v \in 1..Len(d.variants) : Constructible(d, v)
    /\ Unambiguous(d)

---------------------------------------------------------------------------
(* What a well-formed declaration means for a request.                     *)

\* The declared routes of rs that have this method and match this path.
Declared(rs, m, x) == {i \in 1..Len(rs) : rs[i].m = m /\ Matches(rs[i].pat, x)}

\* The variant chosen for a method and a path; 0 if none.
Lookup(rs, m, x) ==
    LET hit == Declared(rs, m, x)
        get == Declared(rs, "GET", x)
    IN  IF hit # {} THEN rs[CHOOSE i \in hit : TRUE].v
        ELSE IF m = "HEAD" /\ get # {} THEN rs[CHOOSE i \in get : TRUE].v
        ELSE 0

PathKnown(rs, x) == \E i \in 1..Len(rs) : Matches(rs[i].pat, x)
=============================================================================
