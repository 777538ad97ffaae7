----------------------------- MODULE MCCodecArg -----------------------------
(* The recogniser of CodecArg against the grammar: a machine derives the words
   of the grammar from left to right (with few digits), then makes one edit. The
   words are accepted; the strings one edit away are accepted just when they are
   words themselves. *)
EXTENDS CodecArg
CONSTANTS Digits, MaxDigits, Edits
VARIABLES s, rest, phase
vars == <<s, rest, phase>>

Digs == UNION { [1..n -> Digits] : n \in 0..MaxDigits }
Some == Digs \ {<< >>}
L(w) == { w }
\* a language as a sequence of sets of pieces
Close1 == L(<<")">>)
Dot == { a \o b : a \in Digs, b \in { <<".">> \o x : x \in Digs } } \ { <<".">> }
Nums == { g \o x \o e : g \in {<< >>, <<"-">>, <<"+">>}, x \in Some \cup Dot, e \in {<< >>} \cup { q \o y : q \in { <<a>> \o b : a \in {"e", "E"}, b \in {<< >>, <<"-">>, <<"+">>} }, y \in Some } }
H == { <<"h">> \o Ilbert, <<"H">> \o Ilbert }
Grammar == {
    <<L(Hufman)>>, <<L(<<"H", "u", "F">> \o SubSeq(Hufman, 4, 6))>>, <<L(Delta)>>, <<L(ZipDict)>>, <<L(ZipBack)>>,
    <<Cluster \cup Voronoi, { d \in Some : \E i \in 1..Len(d) : d[i] # "0" }, Close1>>,
    <<H, {Rle, Zip}, Close1>>, <<H, L(Rle \o <<"(">>), Nums, Close1, Close1>> }

Init == s = << >> /\ rest \in Grammar /\ phase = "derive"
Derive == phase = "derive" /\ rest # << >> /\ \E w \in Head(rest) : s' = s \o w /\ rest' = Tail(rest) /\ UNCHANGED phase
Insert(i, c) == SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
Delete(i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Edit == phase = "derive" /\ rest = << >> /\ phase' = "edited" /\ UNCHANGED rest
        /\ \/ \E i \in 0..Len(s), c \in Edits : s' = Insert(i, c)
           \/ \E i \in 1..Len(s) : s' = Delete(i)
           \/ \E i \in 1..Len(s), c \in Edits : s' = [s EXCEPT ![i] = c]
Next == Derive \/ Edit
Spec == Init /\ [][Next]_vars

RECURSIVE In(_, _)
In(x, g) == IF g = << >> THEN x = << >>
            ELSE \E n \in 0..Len(x) : SubSeq(x, 1, n) \in Head(g) /\ In(SubSeq(x, n + 1, Len(x)), Tail(g))
WordsAccepted == phase = "derive" /\ rest = << >> => Verdict(s) = "accept" /\ Denotes(s) # << >>
\* (with more digits, or in other letter cases, a string one edit away may be a word that the bounded grammar doesn't have)
Bounded == LowerAll(s) # Hufman /\ Cardinality({ i \in 1..Len(s) : s[i] \in Digit }) <= MaxDigits
OthersNot == phase = "edited" /\ Bounded => (Verdict(s) = "accept" <=> \E g \in Grammar : In(s, g))
==============================================================================
