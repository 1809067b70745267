------------------------------- MODULE Alone -------------------------------
(***************************************************************************)
(* What a request comes to when it is served alone, by its plan only: the  *)
(* calls of user code made for it and its answer.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Then(a, b) == [log |-> a.log \o b.log, ans |-> b.ans]
Ends(l, a) == [log |-> l, ans |-> a]
IsAdapter(s) == s.base \in {"async", "sync"}
LibText(status, allow) == "lib " \o ToString(status) \o (IF status = 405 THEN " allow=" \o allow ELSE "") \o ":"
Failed(s, nm, o) == IF o.out = "lib" /\ IsAdapter(s) THEN LibText(o.status, o.allow) ELSE "error " \o nm \o " " \o o.out
RECURSIVE Unwinds(_, _, _, _)
Unwinds(s, p, l, at) ==
    IF l > s.layers THEN Ends(<<>>, "crash " \o at)
    ELSE LET o == p.ph[l]
             nm == "ph" \o ToString(l)
             first == <<nm \o " " \o at \o " " \o p.payload>>
         IN  IF o.out \in {"boom", "boom0"} THEN Then(Ends(first, ""), Unwinds(s, p, l + 1, nm))
             ELSE IF o.out = "ok" THEN Ends(first \o <<nm \o "+">>, nm \o ":" \o p.resp)
             ELSE Ends(first \o <<nm \o "-">>, "error " \o nm \o " " \o o.out)
Stage(s, p, nm, o, next) ==
    CASE o.out = "ok" -> Then(Ends(<<nm, nm \o "+">>, ""), next)
      [] o.out \in {"boom", "boom0"} -> Then(Ends(<<nm>>, ""), Unwinds(s, p, 1, nm))
      [] OTHER -> Ends(<<nm, nm \o "-">>, Failed(s, nm, o))
AloneAdapter(s, p) ==
    CASE p.route = "boom" -> Unwinds(s, p, 1, "route")
      [] p.route \in {"none", "conv"} -> Ends(<<>>, LibText(404, ""))
      [] p.route = "method" -> Ends(<<>>, LibText(405, p.allow))
      [] OTHER ->
            LET last == Stage(s, p, "handler", p.hand, Ends(<<>>, "handler:" \o (IF p.method = "HEAD" THEN "" ELSE p.resp)))
            IN  Stage(s, p, "guard", p.guard, IF p.body.has THEN Stage(s, p, "body", p.body, last) ELSE last)
AloneOf(s, p) ==
    IF IsAdapter(s) THEN AloneAdapter(s, p)
    ELSE LET r == Stage(s, p, "handler", p.hand, Ends(<<>>, "handler:" \o p.resp))
         IN  [r EXCEPT !.log = Tail(@)]       \* ("call n" in the place of "handler")
=============================================================================
