------------------------------ MODULE PathText ------------------------------
(***************************************************************************)
(* Route patterns and request paths, at the level of characters.           *)
(*                                                                         *)
(* A pattern is what a route attribute spells out ("/users/{id}/{p...}");  *)
(* a path is what the request target spells out ("/users/7/a/b", "*", or   *)
(* "" for targets without a path).  Both are given as raw text; the        *)
(* operators below define how a pattern is read, which paths it matches    *)
(* and which two patterns compete for the same path.                       *)
(***************************************************************************)
EXTENDS Text

---------------------------------------------------------------------------
(* Text helpers                                                            *)

\* seq[i..] joined with "/"
JoinFrom(seq, i) ==
    Join(SubSeq(seq, i, Len(seq)), "/")

ValidIdent(s) ==
    /\ s # "" /\ s # "_"
    /\ Chr(s, 1) \in Lower \cup Upper \cup {"_"}
    /\ \A i \in 2..Len(s) : Chr(s, i) \in Lower \cup Upper \cup Digits \cup {"_"}

---------------------------------------------------------------------------
(* Patterns                                                                *)

\* One segment of a pattern: literal, {placeholder} or {rest...}.
SegOf(s) ==
    IF StartsWith(s, "{") /\ EndsWith(s, "}") /\ Len(s) >= 2
    THEN LET inner == SubSeq(s, 2, Len(s) - 1)
         IN  IF EndsWith(inner, "...")
             THEN LET id == SubSeq(inner, 1, Len(inner) - 3)
                  IN  [k |-> IF ValidIdent(id) THEN "rest" ELSE "bad", v |-> id]
             ELSE [k |-> IF ValidIdent(inner) THEN "ph" ELSE "bad", v |-> inner]
    ELSE [k |-> "lit", v |-> s]

\* The names of the placeholders, in order of appearance.
NamesOf(segs) ==
    LET ph == SelectSeq(segs, LAMBDA g : g.k \in {"ph", "rest"})
    IN  [i \in 1..Len(ph) |-> ph[i].v]

IsDupFree(seq) == Cardinality({seq[i] : i \in 1..Len(seq)}) = Len(seq)

\* A pattern as read from its attribute.  ok is FALSE for the ones that are
\* refused: not starting with "/", malformed placeholder names, a rest
\* placeholder that is not last, or one name used twice.
Pattern(raw) ==
    IF raw = "*" THEN [ok |-> TRUE, star |-> TRUE, segs |-> <<>>, names |-> <<>>]
    ELSE IF ~StartsWith(raw, "/")
         THEN [ok |-> FALSE, star |-> FALSE, segs |-> <<>>, names |-> <<>>]
    ELSE LET parts == Split(SubSeq(raw, 2, Len(raw)), "/")
             segs  == [i \in 1..Len(parts) |-> SegOf(parts[i])]
             names == NamesOf(segs)
         IN  [ok    |-> /\ \A i \in 1..Len(segs) : segs[i].k # "bad"
                        /\ \A i \in 1..(Len(segs) - 1) : segs[i].k # "rest"
                        /\ IsDupFree(names),
              star  |-> FALSE,
              segs  |-> segs,
              names |-> names]

\* Two patterns are the same class iff they differ at most in the names of
\* their placeholders.
SameClass(p, q) ==
    /\ p.star = q.star
    /\ Len(p.segs) = Len(q.segs)
    /\ \A i \in 1..Len(p.segs) :
          /\ p.segs[i].k = q.segs[i].k
          /\ p.segs[i].k = "lit" => p.segs[i].v = q.segs[i].v

HasRest(p) == p.segs # <<>> /\ p.segs[Len(p.segs)].k = "rest"

---------------------------------------------------------------------------
(* Request paths                                                           *)

\* kind: "star" for the asterisk target, "none" for targets without a path,
\* "abs" for everything else.
Path(raw) ==
    IF raw = "*" THEN [kind |-> "star", segs |-> <<>>]
    ELSE IF raw = "" THEN [kind |-> "none", segs |-> <<>>]
    ELSE [kind |-> "abs", segs |-> Split(SubSeq(raw, 2, Len(raw)), "/")]

\* pattern p matches path x
Matches(p, x) ==
    IF p.star THEN x.kind = "star"
    ELSE /\ x.kind = "abs"
         /\ IF HasRest(p) THEN Len(x.segs) >= Len(p.segs)
                          ELSE Len(x.segs) = Len(p.segs)
         /\ \A i \in 1..Len(p.segs) :
               CASE p.segs[i].k = "lit"  -> x.segs[i] = p.segs[i].v
                 [] p.segs[i].k = "ph"   -> x.segs[i] # ""
                 [] p.segs[i].k = "rest" -> TRUE

\* The texts captured by the placeholders, in order of appearance.
Captures(p, x) ==
    LET idx == SetToSortSeq({i \in 1..Len(p.segs) : p.segs[i].k \in {"ph", "rest"}},
                            LAMBDA a, b : a < b)
    IN  [j \in 1..Len(idx) |->
            IF p.segs[idx[j]].k = "rest" THEN JoinFrom(x.segs, idx[j])
                                         ELSE x.segs[idx[j]]]

---------------------------------------------------------------------------
(* Competing patterns                                                      *)

\* What segments a single pattern segment admits, pairwise.
SegsMeet(a, b) ==
    CASE a.k = "lit" /\ b.k = "lit" -> a.v = b.v
      [] a.k = "ph"  /\ b.k = "lit" -> b.v # ""
      [] a.k = "lit" /\ b.k = "ph"  -> a.v # ""
      [] OTHER                      -> TRUE

\* Two patterns compete iff for some number of segments both admit that many
\* and no position rules the other one out.  (MC_Overlap checks that this is
\* the same as: some path is matched by both.)
AdmitsLen(p, n) == IF HasRest(p) THEN n >= Len(p.segs) ELSE n = Len(p.segs)
SegOrRest(p, i) == IF i <= Len(p.segs) THEN p.segs[i] ELSE [k |-> "rest", v |-> ""]
Overlap(p, q) ==
    IF p.star \/ q.star THEN p.star /\ q.star
    ELSE \E n \in {Len(p.segs), Len(q.segs)} :
            /\ AdmitsLen(p, n) /\ AdmitsLen(q, n)
            /\ \A i \in 1..n : SegsMeet(SegOrRest(p, i), SegOrRest(q, i))

\* The algorithm of the derive: walk both patterns in step, a rest
\* placeholder standing for all further segments.
SegAt(p, i) == IF i <= Len(p.segs) THEN p.segs[i] ELSE p.segs[Len(p.segs)]
HasSeg(p, i) == i <= Len(p.segs) \/ HasRest(p)

RECURSIVE Walk(_, _, _, _)
Walk(p, q, i, sawRest) ==
    IF ~HasSeg(p, i) \/ ~HasSeg(q, i)
    THEN Len(p.segs) = Len(q.segs) \/ sawRest
    ELSE LET a == SegAt(p, i)
             b == SegAt(q, i)
         IN  IF a.k = "rest" /\ b.k = "rest" THEN TRUE
             ELSE IF a.k = "rest" \/ b.k = "rest" THEN Walk(p, q, i + 1, TRUE)
             ELSE SegsMeet(a, b) /\ Walk(p, q, i + 1, sawRest)

FindOverlap(p, q) ==
    IF p.star \/ q.star THEN p.star /\ q.star ELSE Walk(p, q, 1, FALSE)

\* Declarative: some path is matched by both.  (MC_Overlap checks that
\* FindOverlap decides exactly this.)
OverlapIn(p, q, Paths) == \E x \in Paths : Matches(p, x) /\ Matches(q, x)
=============================================================================
