------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What texts mean to the field types used in conformance runs:            *)
(* `FromStr` for placeholders, form decoding for query strings and form    *)
(* bodies, JSON decoding for JSON bodies.  Values are rendered as text, so *)
(* that they can be compared with what the real types print.               *)
(*                                                                         *)
(***************************************************************************)
EXTENDS Text

---------------------------------------------------------------------------
(* Placeholders                                                            *)

IsEven(n) == n % 2 = 0
PhTypes == {"U8", "U16", "I16", "Str", "Bool", "Chr", "Even", "Short"}
Convert(ty, s) ==
    CASE ty = "U8"    -> ParseInt(s, 0, 255)
      [] ty = "U16"   -> ParseInt(s, 0, 65535)
      [] ty = "I16"   -> ParseInt(s, -32768, 32767)
      [] ty = "Str"   -> Yes(s)
      [] ty = "Bool"  -> IF s \in {"true", "false"} THEN Yes(s) ELSE No
      [] ty = "Chr"   -> IF Len(s) = 1 THEN Yes(s) ELSE No
      [] ty = "Even"  -> LET r == ParseInt(s, 0, 65535)
                         IN  IF r.ok /\ IsEven(NatValue(r.v)) THEN r ELSE No
      [] ty = "Short" -> IF Len(s) <= 3 THEN Yes(s) ELSE No
\* The error a failing conversion reports, as the harness names it.
ConvertErr(ty, s) ==
    CASE ty \in {"U8", "U16", "I16"} -> "ParseIntError"
      [] ty = "Bool"                 -> "ParseBoolError"
      [] ty = "Chr"                  -> "ParseCharError"
      [] OTHER                       -> ty \o "Err(" \o s \o ")"

---------------------------------------------------------------------------
(* application/x-www-form-urlencoded                                       *)

UpperHex == [c \in {"a", "b", "c", "d", "e", "f"} |->
                CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C"
                  [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F"]
IsHex(c) == c \in DOMAIN HexVal

RECURSIVE PercentDecode(_)
PercentDecode(s) ==
    IF s = "" THEN ""
    ELSE IF /\ Len(s) >= 3 /\ Chr(s, 1) = "%" /\ IsHex(Chr(s, 2)) /\ IsHex(Chr(s, 3))
         THEN LET n == 16 * HexVal[Chr(s, 2)] + HexVal[Chr(s, 3)]
                  hx == MapChars(SubSeq(s, 2, 3), UpperHex)
              IN  (IF n \in 32..126 THEN CharOf(n)
                   ELSE IF hx \in DOMAIN HiCode THEN HiCode[hx] ELSE "?")
                  \o PercentDecode(From(s, 4))
    ELSE IF Chr(s, 1) = "+" THEN " " \o PercentDecode(Tail(s))
    ELSE Chr(s, 1) \o PercentDecode(Tail(s))

\* The key/value pairs of a form, in order.
Pairs(raw) ==
    LET parts == SelectSeq(Split(raw, "&"), LAMBDA x : x # "")
    IN  [k \in 1..Len(parts) |->
            LET e == Find(parts[k], {"="}, 1)
            IN  [k |-> PercentDecode(SubSeq(parts[k], 1, e - 1)),
                 v |-> PercentDecode(From(parts[k], e + 1))]]

At(ps, key) == {j \in 1..Len(ps) : ps[j].k = key}
Sole(ps, key) == ps[CHOOSE j \in At(ps, key) : TRUE].v
\* A field of a struct: given at most once, and convertible if given.
Given(ps, key) == At(ps, key) # {}
Twice(ps, key) == Cardinality(At(ps, key)) > 1

PairText(p) == p.k \o "=" \o p.v
\* The last value given for each key, by key.
MapText(ps) ==
    LET keys == SortTexts({ps[j].k : j \in 1..Len(ps)})
        last(key) == ps[CHOOSE j \in At(ps, key) : \A l \in At(ps, key) : l <= j].v
    IN  "{" \o Join([j \in 1..Len(keys) |-> keys[j] \o "=" \o last(keys[j])], ",") \o "}"

FormTypes == {"QUnit", "QMap", "QPairs", "QReq", "QDef", "QStrict", "QSel"}
FormDecode(ty, raw) ==
    LET ps == Pairs(raw)
        num(key, hi) == ParseInt(Sole(ps, key), 0, hi)
    IN  CASE ty = "QUnit"  -> IF ps = <<>> THEN Yes("()") ELSE No
          [] ty = "QMap"   -> Yes(MapText(ps))
          [] ty = "QPairs" -> Yes("[" \o Join([j \in 1..Len(ps) |-> PairText(ps[j])], ",") \o "]")
          [] ty = "QReq"   ->
                IF Twice(ps, "id") \/ Twice(ps, "name") \/ ~Given(ps, "id") THEN No
                ELSE IF ~num("id", 65535).ok THEN No
                ELSE Yes("Req(" \o num("id", 65535).v \o ","
                         \o (IF Given(ps, "name") THEN "+" \o Sole(ps, "name") ELSE "-") \o ")")
          [] ty = "QDef"   ->
                IF Twice(ps, "page") \/ Twice(ps, "q") THEN No
                ELSE IF Given(ps, "page") /\ ~num("page", 255).ok THEN No
                ELSE Yes("Def(" \o (IF Given(ps, "page") THEN num("page", 255).v ELSE "1") \o ","
                         \o (IF Given(ps, "q") THEN Sole(ps, "q") ELSE "none") \o ")")
          [] ty = "QStrict" ->
                IF Twice(ps, "id") \/ ~Given(ps, "id") \/ Len(ps) > 1 THEN No
                ELSE IF ~num("id", 65535).ok THEN No
                ELSE Yes("Strict(" \o num("id", 65535).v \o ")")
          [] ty = "QSel"   ->
                IF Twice(ps, "kind") \/ ~Given(ps, "kind") \/ Sole(ps, "kind") \notin {"asc", "desc"} THEN No
                ELSE Yes("Sel(" \o Sole(ps, "kind") \o ")")

\* The type of a query field may be Option<T>.
QueryDecode(ty, raw) ==
    IF StartsWith(ty, "Option<")
    THEN IF raw = "" THEN Yes("-")
         ELSE LET r == FormDecode(SubSeq(ty, 8, Len(ty) - 1), raw)
              IN  IF r.ok THEN Yes("+" \o r.v) ELSE No
    ELSE FormDecode(ty, raw)

---------------------------------------------------------------------------
(* JSON: numbers, strings, arrays, objects, literals.                      *)

Space == {" ", "\n", "\t", "\r"}
RECURSIVE SkipSpace(_, _)
SkipSpace(s, i) == IF i <= Len(s) /\ Chr(s, i) \in Space THEN SkipSpace(s, i + 1) ELSE i
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ Chr(s, i) \in Digits THEN SkipDigits(s, i + 1) ELSE i

\* A parsed value: its kind (num, frac, str, arr, obj, lit), its text, its
\* members (for arrays and objects) and their keys (for objects).
Node(k, t, ms, ks) == [k |-> k, t |-> t, ms |-> ms, ks |-> ks]
Bad == [ok |-> FALSE, at |-> 0, n |-> Node("bad", "", <<>>, <<>>)]
Got(at, n) == [ok |-> TRUE, at |-> at, n |-> n]

JsonNumber(s, i) ==
    LET j  == IF Chr(s, i) = "-" THEN i + 1 ELSE i
        e1 == SkipDigits(s, j)
        fr == e1 <= Len(s) /\ Chr(s, e1) = "."
        e2 == IF fr THEN SkipDigits(s, e1 + 1) ELSE e1
        ex == e2 <= Len(s) /\ Chr(s, e2) \in {"e", "E"}
        sg == IF ex /\ e2 + 1 <= Len(s) /\ Chr(s, e2 + 1) \in {"+", "-"} THEN e2 + 2 ELSE e2 + 1
        e3 == IF ex THEN SkipDigits(s, sg) ELSE e2
    IN  IF e1 = j \/ (e1 > j + 1 /\ Chr(s, j) = "0") \/ (fr /\ e2 = e1 + 1) \/ (ex /\ e3 = sg) THEN Bad
        ELSE Got(e3, Node(IF fr \/ ex THEN "frac" ELSE "num", SubSeq(s, i, e3 - 1), <<>>, <<>>))

\* Well-formed UTF-8, as far as the represented characters go.
RECURSIVE Utf8OK(_)
Utf8OK(s) ==
    IF s = "" THEN TRUE
    ELSE IF Chr(s, 1) \in HiCont THEN FALSE
    ELSE IF Chr(s, 1) \in HiLead THEN Len(s) >= 2 /\ Chr(s, 2) \in HiCont /\ Utf8OK(From(s, 3))
    ELSE IF Chr(s, 1) \in HiLead3
         THEN Len(s) >= 3 /\ Chr(s, 2) \in HiCont /\ Chr(s, 3) \in HiCont /\ Utf8OK(From(s, 4))
    ELSE Utf8OK(Tail(s))

\* The rest of a string literal from position i on; acc is what it spelled so far.  Only the strings
\* that are read must be UTF-8: members that the wanted type does not have are passed over.
EscapeOf == [c \in {"\"", "\\", "/", "n", "t", "r"} |->
                CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] OTHER -> c]
\* The code after \u, if it stands for a printable ASCII character (others are not used), else 0.
UnicodeEscape(s, i) ==
    IF i + 3 > Len(s) \/ (\E j \in i..(i + 3) : ~IsHex(Chr(s, j))) THEN 0
    ELSE LET n == 4096 * HexVal[Chr(s, i)] + 256 * HexVal[Chr(s, i + 1)] + 16 * HexVal[Chr(s, i + 2)] + HexVal[Chr(s, i + 3)]
         IN  IF n \in 32..126 THEN n ELSE 0
RECURSIVE JsonChars(_, _, _)
JsonChars(s, i, acc) ==
    LET e == Find(s, {"\"", "\\"} \cup Control, i)
        t == acc \o SubSeq(s, i, e - 1)
    IN  IF e > Len(s) \/ Chr(s, e) \in Control THEN Bad
        ELSE IF Chr(s, e) = "\"" THEN Got(e + 1, Node("str", t, <<>>, <<>>))
        ELSE IF e = Len(s) THEN Bad
        ELSE IF Chr(s, e + 1) \in DOMAIN EscapeOf THEN JsonChars(s, e + 2, t \o EscapeOf[Chr(s, e + 1)])
        ELSE IF Chr(s, e + 1) = "u" /\ UnicodeEscape(s, e + 2) # 0
             THEN JsonChars(s, e + 6, t \o CharOf(UnicodeEscape(s, e + 2)))
        ELSE Bad
JsonString(s, i) == JsonChars(s, i + 1, "")

RECURSIVE JsonValue(_, _)
RECURSIVE JsonItems(_, _, _)
RECURSIVE JsonMembers(_, _, _, _)
JsonValue(s, i0) ==
    LET i == SkipSpace(s, i0)
        c == Chr(s, i)
        lit(w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
    IN  IF i > Len(s) THEN Bad
        ELSE IF c \in Digits \/ c = "-" THEN JsonNumber(s, i)
        ELSE IF c = "\"" THEN JsonString(s, i)
        ELSE IF c = "[" THEN
             LET j == SkipSpace(s, i + 1)
             IN  IF j <= Len(s) /\ Chr(s, j) = "]" THEN Got(j + 1, Node("arr", "", <<>>, <<>>))
                 ELSE JsonItems(s, j, <<>>)
        ELSE IF c = "{" THEN
             LET j == SkipSpace(s, i + 1)
             IN  IF j <= Len(s) /\ Chr(s, j) = "}" THEN Got(j + 1, Node("obj", "", <<>>, <<>>))
                 ELSE JsonMembers(s, j, <<>>, <<>>)
        ELSE IF lit("true") THEN Got(i + 4, Node("lit", "true", <<>>, <<>>))
        ELSE IF lit("false") THEN Got(i + 5, Node("lit", "false", <<>>, <<>>))
        ELSE IF lit("null") THEN Got(i + 4, Node("lit", "null", <<>>, <<>>))
        ELSE Bad
JsonItems(s, i, acc) ==
    LET r == JsonValue(s, i)
        j == SkipSpace(s, r.at)
    IN  IF ~r.ok THEN Bad
        ELSE IF j > Len(s) THEN Bad
        ELSE IF Chr(s, j) = "," THEN JsonItems(s, j + 1, Append(acc, r.n))
        ELSE IF Chr(s, j) = "]" THEN Got(j + 1, Node("arr", "", Append(acc, r.n), <<>>))
        ELSE Bad
JsonMembers(s, i0, keys, acc) ==
    LET i == SkipSpace(s, i0)
    IN  IF i > Len(s) \/ Chr(s, i) # "\"" THEN Bad
        ELSE LET k == JsonString(s, i)
                 j == SkipSpace(s, k.at)
             IN  IF ~k.ok THEN Bad
                 ELSE IF j > Len(s) \/ Chr(s, j) # ":" THEN Bad
                 ELSE LET r == JsonValue(s, j + 1)
                          e == SkipSpace(s, r.at)
                      IN  IF ~r.ok THEN Bad
                          ELSE IF e > Len(s) THEN Bad
                          ELSE IF Chr(s, e) = ","
                               THEN JsonMembers(s, e + 1, Append(keys, k.n.t), Append(acc, r.n))
                          ELSE IF Chr(s, e) = "}"
                               THEN Got(e + 1, Node("obj", "", Append(acc, r.n), Append(keys, k.n.t)))
                          ELSE Bad

\* A whole document.
JsonDoc(s) ==
    LET r == JsonValue(s, 1)
    IN  IF r.ok /\ SkipSpace(s, r.at) > Len(s) THEN r ELSE Bad

JsonInt(n, lo, hi) ==
    IF n.k = "num"
    THEN IF n.t = "-0" THEN No     \* a float to serde_json
         ELSE ParseInt(n.t, lo, hi)
    ELSE No

JsonTypes == {"JU16", "JStr", "JList", "JPt", "JOpt"}
JsonDecode(ty, s) ==
    LET r == JsonDoc(s)
        n == r.n
    IN  IF ~r.ok THEN No
        ELSE CASE ty = "JU16"  -> JsonInt(n, 0, 65535)
               [] ty = "JOpt"  -> IF n.k = "lit" /\ n.t = "null" THEN Yes("-")
                                  ELSE LET v == JsonInt(n, 0, 65535) IN IF v.ok THEN Yes("+" \o v.v) ELSE No
               [] ty = "JStr"  -> IF n.k = "str" /\ Utf8OK(n.t) THEN Yes(n.t) ELSE No
               [] ty = "JList" ->
                     IF n.k # "arr" THEN No
                     ELSE IF \E j \in 1..Len(n.ms) : ~JsonInt(n.ms[j], 0, 65535).ok THEN No
                     ELSE Yes("[" \o Join([j \in 1..Len(n.ms) |-> JsonInt(n.ms[j], 0, 65535).v], ",") \o "]")
               [] ty = "JPt"   ->   \* struct { x: i16, y: Option<i16> }
                     LET key(k) == {j \in 1..Len(n.ks) : n.ks[j] = k}
                         val(k) == n.ms[CHOOSE j \in key(k) : TRUE]
                         int(k) == JsonInt(val(k), -32768, 32767)
                         isNull(k) == val(k).k = "lit" /\ val(k).t = "null"
                         \* a struct may also be written as the array of its fields
                         ai(j) == JsonInt(n.ms[j], -32768, 32767)
                         an(j) == n.ms[j].k = "lit" /\ n.ms[j].t = "null"
                     IN  IF n.k = "arr" THEN
                              IF Len(n.ms) # 2 \/ ~ai(1).ok \/ ~(an(2) \/ ai(2).ok) THEN No
                              ELSE Yes("Pt(" \o ai(1).v \o "," \o (IF an(2) THEN "-" ELSE "+" \o ai(2).v) \o ")")
                         ELSE IF n.k # "obj" \/ (\E j \in DOMAIN n.ks : ~Utf8OK(n.ks[j])) THEN No
                         ELSE IF Cardinality(key("x")) # 1 \/ Cardinality(key("y")) > 1 \/ ~int("x").ok THEN No
                         ELSE IF key("y") = {} THEN Yes("Pt(" \o int("x").v \o ",-)")
                         ELSE IF isNull("y") THEN Yes("Pt(" \o int("x").v \o ",-)")
                         ELSE IF ~int("y").ok THEN No
                         ELSE Yes("Pt(" \o int("x").v \o ",+" \o int("y").v \o ")")

---------------------------------------------------------------------------
(* Bodies.  Own body types (B...) of the harness, and the library's.       *)

FormBodies == [FReq |-> "QReq", FMap |-> "QMap", FPairs |-> "QPairs", FDef |-> "QDef"]
LibBodies == JsonTypes \cup DOMAIN FormBodies
OwnBodies == {"BRaw", "BRawA", "BRawC", "BIgn", "BErr"}
Reads(ty) == ty \notin {"BIgn", "BErr"}

\* What a decoder that read the whole body makes of it, and its error if any.
BodyDecode(ty, s) ==
    CASE ty \in JsonTypes        -> JsonDecode(ty, s)
      [] ty \in DOMAIN FormBodies -> FormDecode(FormBodies[ty], s)
      [] OTHER                    -> Yes(s)
BodyErr(ty) == IF ty \in JsonTypes THEN "json" ELSE "form"
=============================================================================
