----------------------------- MODULE MCFunCall -----------------------------
(* The machine accepts just the well-formed strings, with the arguments
   between the commas at depth 1. *)
EXTENDS FunCall
CONSTANTS MaxLen, Chars
VARIABLES s, m
vars == <<s, m>>
Init == s = << >> /\ m = Start
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c) /\ m' = Feed(m, c)
Spec == Init /\ [][Next]_vars
Accepted == m.st = "end"
SameLanguage == Accepted <=> WellFormed(s)
RECURSIVE Join(_)
Join(a) == IF a = << >> THEN << >> ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] \o <<",">> \o Join(Tail(a))
Lossless == Accepted => s = m.name \o <<"(">> \o Join(m.args) \o <<")">>
Pieces == Accepted => /\ m.name # << >> /\ \A k \in 1..Len(m.name) : m.name[k] \notin Special
                      /\ \A i \in 1..Len(m.args) : m.args[i] # << >> /\ Depth(m.args[i], Len(m.args[i])) = 0
                      /\ m.args # << >> => Len(m.args) = Cardinality(Cuts(s)) + 1
BadForEver == [][m.st = "bad" => m'.st = "bad"]_vars
==============================================================================
