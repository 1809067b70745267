----------------------------- MODULE MC_Overlap -----------------------------
(***************************************************************************)
(* Exhaustive check of the pattern layer on a small universe: every        *)
(* pattern of up to MaxSegs segments over a few literals, placeholders and *)
(* a final rest placeholder, and `*`; every path of up to MaxSegs + 1      *)
(* segments.  For every pair of patterns the walk FindOverlap used by the  *)
(* derive answers exactly whether some path is matched by both; for every  *)
(* pattern and path, Matches says exactly whether some choice of captured  *)
(* texts spells the path, and Captures returns that choice.                *)
(***************************************************************************)
EXTENDS PathText

CONSTANTS Lits,        \* literal segments of patterns
          Texts,       \* segments of paths (contains Lits)
          MaxSegs

VARIABLES p, q, seen

SegPool == {[k |-> "lit", v |-> l] : l \in Lits} \cup {[k |-> "ph", v |-> "x"]}
Pat(segs) == [ok |-> TRUE, star |-> FALSE, segs |-> segs, names |-> <<>>]
SegSeqs == UNION {[1..n -> SegPool] : n \in 0..MaxSegs}
Patterns ==
    {[ok |-> TRUE, star |-> TRUE, segs |-> <<>>, names |-> <<>>]}
    \cup {Pat(s) : s \in SegSeqs \ {<<>>}}
    \cup {Pat(Append(s, [k |-> "rest", v |-> "r"])) : s \in UNION {[1..n -> SegPool] : n \in 0..(MaxSegs - 1)}}

Paths == {[kind |-> "star", segs |-> <<>>], [kind |-> "none", segs |-> <<>>]}
         \cup {[kind |-> "abs", segs |-> s] : s \in UNION {[1..n -> Texts] : n \in 1..(MaxSegs + 1)}}

\* What a pattern spells when its placeholders are given the texts in caps.
Spell(pt, caps) ==
    LET RECURSIVE G(_, _)
        G(i, c) == IF i > Len(pt.segs) THEN ""
                   ELSE IF pt.segs[i].k = "lit" THEN "/" \o pt.segs[i].v \o G(i + 1, c)
                   ELSE "/" \o caps[c] \o G(i + 1, c + 1)
    IN  G(1, 1)
Text(x) == CASE x.kind = "star" -> "*" [] x.kind = "none" -> "" [] OTHER -> "/" \o Join(x.segs, "/")

NumPh(pt) == Cardinality({i \in 1..Len(pt.segs) : pt.segs[i].k # "lit"})
\* Texts a rest placeholder may stand for in this universe.
RestTexts == {Join(s, "/") : s \in UNION {[1..n -> Texts] : n \in 1..(MaxSegs + 1)}}
CapChoices(pt) ==
    LET n == NumPh(pt)
    IN  {c \in [1..n -> RestTexts] :
            \A i \in 1..n : (i < n \/ ~HasRest(pt)) => c[i] \in Texts \ {""}}

Init == p \in Patterns /\ q \in Patterns /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q, seen>>

OverlapIsSound == FindOverlap(p, q) <=> OverlapIn(p, q, Paths)
OverlapClosedForm == Overlap(p, q) <=> OverlapIn(p, q, Paths)
OverlapIsSymmetric == FindOverlap(p, q) <=> FindOverlap(q, p)
SameClassOverlaps == (SameClass(p, q) /\ ~p.star) => FindOverlap(p, q)

\* Checked once per pattern (on the diagonal).
MatchIsSpelling ==
    (p = q /\ ~seen) =>
        \A x \in Paths :
            IF p.star THEN Matches(p, x) <=> x.kind = "star"
            ELSE Matches(p, x) <=> \E c \in CapChoices(p) : Spell(p, c) = Text(x)
CapturesSpell ==
    (p = q /\ ~seen /\ ~p.star) =>
        \A x \in Paths : Matches(p, x) => /\ Captures(p, x) \in CapChoices(p)
                                          /\ Spell(p, Captures(p, x)) = Text(x)
=============================================================================
