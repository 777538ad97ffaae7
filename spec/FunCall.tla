------------------------------- MODULE FunCall -------------------------------
(* The function-call syntax name(arg,...) as a pushdown machine fed one
   character at a time. Characters are strings of length one. *)
EXTENDS Common

Start == [st |-> "name", depth |-> 0, name |-> << >>, cur |-> << >>, args |-> << >>]
Bad(m) == [m EXCEPT !.st = "bad"]
Keep(m, c) == [m EXCEPT !.cur = Append(@, c)]
Push(m) == [m EXCEPT !.args = Append(@, m.cur), !.cur = << >>]

Feed(m, c) ==
    CASE m.st = "bad" -> m
      [] m.st = "end" -> Bad(m)                                \* nothing after the closing parenthesis
      [] m.st = "name" -> CASE c = "(" -> IF m.name = << >> THEN Bad(m) ELSE [m EXCEPT !.st = "args", !.depth = 1]
                            [] c \in {")", ","} -> Bad(m)
                            [] OTHER -> [m EXCEPT !.name = Append(@, c)]
      [] m.st = "args" -> CASE c = "(" -> [Keep(m, c) EXCEPT !.depth = @ + 1]
                            [] c = ")" /\ m.depth > 1 -> [Keep(m, c) EXCEPT !.depth = @ - 1]
                            [] c = ")" -> IF m.cur = << >> THEN (IF m.args = << >> THEN [m EXCEPT !.st = "end"] ELSE Bad(m))
                                          ELSE [Push(m) EXCEPT !.st = "end"]
                            [] c = "," /\ m.depth = 1 -> IF m.cur = << >> THEN Bad(m) ELSE Push(m)
                            [] OTHER -> Keep(m, c)

RECURSIVE Run(_, _, _, _)
Run(m, s, i, e) == IF i > e THEN m ELSE Run(Feed(m, s[i]), s, i + 1, e)

\* The same, declaratively
Special == {"(", ")", ","}
RECURSIVE Depth(_, _)
Depth(s, k) == IF k = 0 THEN 0 ELSE Depth(s, k - 1) + (CASE s[k] = "(" -> 1 [] s[k] = ")" -> -1 [] OTHER -> 0)
WellFormed(s) ==
    \E p \in 2..Len(s) :                                       \* the first parenthesis
        /\ s[p] = "(" /\ \A k \in 1..p - 1 : s[k] \notin Special
        /\ Len(s) > p /\ s[Len(s)] = ")"
        /\ Depth(s, Len(s)) = 0
        /\ \A k \in p..Len(s) - 1 : Depth(s, k) >= 1
        \* no empty arguments, but for no arguments at all
        /\ Len(s) > p + 1 =>
            \A k \in p..Len(s) - 1 :
                (k = p \/ (s[k] = "," /\ Depth(s, k) = 1)) =>
                    ~(s[k + 1] = "," \/ k + 1 = Len(s))
Cuts(s) == { k \in 1..Len(s) : (s[k] = "," /\ Depth(s, k) = 1) }
==============================================================================
