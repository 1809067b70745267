-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Operators on texts.  TLC evaluates Len, SubSeq, Tail and \o on strings, *)
(* so a text is used as the sequence of its (ASCII) characters.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Chr(s, i) == SubSeq(s, i, i)
CharSet(s) == {Chr(s, i) : i \in 1..Len(s)}

Digit0 == "0123456789"
Lower  == CharSet("abcdefghijklmnopqrstuvwxyz")
Upper  == CharSet("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Digits == CharSet(Digit0)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i)       == SubSeq(s, i, Len(s))

\* The least position i >= from of a character of s that is in the set C, or Len(s) + 1.
RECURSIVE Find(_, _, _)
Find(s, C, from) ==
    IF from > Len(s) \/ Chr(s, from) \in C THEN from ELSE Find(s, C, from + 1)

\* The pieces of s between occurrences of the character c (at least one piece).
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, from) ==
    LET e == Find(s, {c}, from)
    IN  IF e > Len(s) THEN <<SubSeq(s, from, Len(s))>>
        ELSE <<SubSeq(s, from, e - 1)>> \o SplitAt(s, c, e + 1)
Split(s, c) == SplitAt(s, c, 1)

\* Texts joined with a separator.
RECURSIVE Join(_, _)
Join(seq, sep) ==
    CASE seq = <<>>    -> ""
      [] Len(seq) = 1  -> seq[1]
      [] OTHER         -> seq[1] \o sep \o Join(Tail(seq), sep)

\* All characters of s replaced according to f (a function on a set of characters).
RECURSIVE MapChars(_, _)
MapChars(s, f) ==
    IF s = "" THEN ""
    ELSE LET c == Chr(s, 1) IN (IF c \in DOMAIN f THEN f[c] ELSE c) \o MapChars(Tail(s), f)

---------------------------------------------------------------------------
(* ASCII                                                                   *)

\* The printable characters in code order, starting with the space (code 32).
Printable ==
    " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([c \in CharSet(Printable) |-> (CHOOSE i \in 1..Len(Printable) : Chr(Printable, i) = c) + 31])
CharOf(n) == Chr(Printable, n - 31)

\* Other bytes are represented by one character each; hi.json (beside this
\* module) lists the ones in use: their code, which of them are control
\* characters, and which begin a character of two (lead) or three bytes
\* (lead3) or continue one (cont) in UTF-8.
HiTable == TLCEval(JsonDeserialize(IOEnv.VERIF_SPEC \o "/hi.json"))
HiLead == TLCEval({HiTable.lead[j] : j \in 1..Len(HiTable.lead)})
HiLead3 == TLCEval({HiTable.lead3[j] : j \in 1..Len(HiTable.lead3)})
HiCont == TLCEval({HiTable.cont[j] : j \in 1..Len(HiTable.cont)})
Control == TLCEval({HiTable.control[j] : j \in 1..Len(HiTable.control)})
HiCode == TLCEval([h \in {HiTable.code[j].h : j \in 1..Len(HiTable.code)} |->
             HiTable.code[CHOOSE j \in 1..Len(HiTable.code) : HiTable.code[j].h = h].c])
HiRank == TLCEval([c \in {HiTable.code[j].c : j \in 1..Len(HiTable.code)} |->
             HiTable.code[CHOOSE j \in 1..Len(HiTable.code) : HiTable.code[j].c = c].n])

\* Lexicographic order on texts by their codes.
Rank(c) == IF c \in DOMAIN CodeOf THEN CodeOf[c] ELSE HiRank[c]
RECURSIVE TextLess(_, _)
TextLess(a, b) ==
    CASE b = ""  -> FALSE
      [] a = ""  -> TRUE
      [] OTHER   -> LET x == Rank(Chr(a, 1))
                        y == Rank(Chr(b, 1))
                    IN  x < y \/ (x = y /\ TextLess(Tail(a), Tail(b)))
SortTexts(S) == SetToSortSeq(S, TextLess)

HexVal == TLCEval([c \in CharSet("0123456789abcdefABCDEF") |->
             CASE c \in Digits -> CodeOf[c] - 48
               [] c \in Lower  -> CodeOf[c] - 87
               [] OTHER        -> CodeOf[c] - 55])

---------------------------------------------------------------------------
(* Numbers                                                                 *)

AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Chr(s, i) \in Digits

RECURSIVE DropZeros(_)
DropZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN DropZeros(Tail(s)) ELSE s

RECURSIVE NatOf(_, _)
NatOf(s, acc) == IF s = "" THEN acc ELSE NatOf(Tail(s), 10 * acc + CodeOf[Chr(s, 1)] - 48)

\* The number spelled by a non-empty text of digits; anything beyond 9 digits
\* is represented by 999999999 (all ranges used are far smaller).
NatValue(s) == LET t == DropZeros(s) IN IF Len(t) > 9 THEN 999999999 ELSE NatOf(t, 0)

No == [ok |-> FALSE, v |-> ""]
Yes(v) == [ok |-> TRUE, v |-> v]

\* Decimal text with optional sign, as Rust's integer parsing reads it.
ParseInt(s, lo, hi) ==
    LET neg == lo < 0 /\ StartsWith(s, "-")
        mag == IF neg \/ StartsWith(s, "+") THEN Tail(s) ELSE s
    IN  IF ~AllDigits(mag) THEN No
        ELSE LET n == NatValue(mag)
                 x == IF neg THEN -n ELSE n
             IN  IF x < lo \/ x > hi THEN No ELSE Yes(ToString(x))
=============================================================================
