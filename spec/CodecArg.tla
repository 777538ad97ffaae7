------------------------------- MODULE CodecArg -------------------------------
(* The codec arguments: which strings are accepted and what they denote.
   Strings are sequences of characters (strings of length one). *)
EXTENDS Common

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower(c) == CASE c = "H" -> "h" [] c = "U" -> "u" [] c = "F" -> "f" [] c = "M" -> "m" [] c = "A" -> "a" [] c = "N" -> "n"
              [] c = "I" -> "i" [] c = "T" -> "t" [] c = "Y" -> "y" [] OTHER -> c
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]

Hufman == <<"h", "u", "f", "m", "a", "n">>
Delta == <<"d", "e", "l", "t", "a">>
ZipDict == <<"z", "i", "p", "(", "d", "i", "c", "t", ")">>
ZipBack == <<"z", "i", "p", "(", "b", "a", "c", "k", ")">>
Ilbert == <<"i", "l", "b", "e", "r", "t", "(">>
Rle == <<"r", "l", "e">>
Zip == <<"z", "i", "p">>
Cluster == { a \o b \o d \o <<"(">> : a \in {<<"c">>, <<"c", "l", "u", "s", "t", "e", "r">>}, b \in {<< >>, <<"-">>},
                                      d \in {<<"c", "o", "l">>, <<"c", "o", "l", "o", "r", "s">>} }
Voronoi == {<<"v", "o", "r", "o", "n", "o", "i", "(">>}

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* what is between the prefix p and a closing parenthesis; needs Within(s, p)
Within(s, p) == Starts(s, p) /\ Len(s) > Len(p) /\ s[Len(s)] = ")"
Inner(s, p) == SubSeq(s, Len(p) + 1, Len(s) - 1)

AllDigits(s) == \A i \in 1..Len(s) : s[i] \in Digit
RECURSIVE StripZeros(_)
StripZeros(s) == IF s # << >> /\ Head(s) = "0" THEN StripZeros(Tail(s)) ELSE s
RECURSIVE StripEnd(_)
StripEnd(s) == IF s # << >> /\ s[Len(s)] = "0" THEN StripEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Value(c) == CHOOSE v \in 0..9 : ToString(v) = c
MaxUsize == <<"1", "8", "4", "4", "6", "7", "4", "4", "0", "7", "3", "7", "0", "9", "5", "5", "1", "6", "1", "5">>
RECURSIVE NotAbove(_, _)
NotAbove(a, b) == a = << >> \/ Value(Head(a)) < Value(Head(b)) \/ (Head(a) = Head(b) /\ NotAbove(Tail(a), Tail(b)))
Fits(d) == Len(d) < 20 \/ (Len(d) = 20 /\ NotAbove(d, MaxUsize))
\* A positive decimal number of machine size
Count(s) == s # << >> /\ AllDigits(s) /\ StripZeros(s) # << >> /\ Fits(StripZeros(s))

\* A decimal number: an optional sign, digits with an optional point among or around them, an optional exponent
Signs == {"+", "-"}
Unsigned(s) == IF s # << >> /\ Head(s) \in Signs THEN Tail(s) ELSE s
\* index of the first of the characters C in s, Len(s) + 1 without one
Find(s, C) == LET I == { i \in 1..Len(s) : s[i] \in C } IN IF I = {} THEN Len(s) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Mantissa(s) == LET u == Unsigned(s) IN SubSeq(u, 1, Find(u, {"e", "E"}) - 1)
Exponent(s) == LET u == Unsigned(s) IN SubSeq(u, Find(u, {"e", "E"}) + 1, Len(u))        \* empty without one
HasExponent(s) == LET u == Unsigned(s) IN Find(u, {"e", "E"}) <= Len(u)
Whole(s) == LET q == Mantissa(s) IN SubSeq(q, 1, Find(q, {"."}) - 1)
Fraction(s) == LET q == Mantissa(s) IN SubSeq(q, Find(q, {"."}) + 1, Len(q))
Number(s) ==
    /\ AllDigits(Whole(s)) /\ AllDigits(Fraction(s)) /\ Len(Whole(s)) + Len(Fraction(s)) > 0
    /\ HasExponent(s) => Unsigned(Exponent(s)) # << >> /\ AllDigits(Unsigned(Exponent(s)))
\* Left open: what else the language may call a number
Unspecified(s) == LowerAll(Unsigned(s)) \in {<<"i", "n", "f">>, <<"n", "a", "n">>, <<"i", "n", "f", "i", "n", "i", "t", "y">>}

RECURSIVE ToInt(_)
ToInt(d) == IF d = << >> THEN 0 ELSE 10 * ToInt(SubSeq(d, 1, Len(d) - 1)) + Value(d[Len(d)])
\* Its value: sign, significant digits, exponent of the last of these. << >> where
\* double precision may round it
NumberValue(s) ==
    LET ex == StripZeros(Unsigned(Exponent(s)))
        all == Whole(s) \o Fraction(s)
        sig == StripEnd(StripZeros(all))
        zeros == Len(StripZeros(all)) - Len(sig)
    IN IF sig = << >> THEN <<"0">>
       ELSE IF Len(ex) > 3 \/ Len(sig) > 15 \/ Len(all) > 60 THEN << >>
       ELSE LET e == (IF Exponent(s) # << >> /\ Head(Exponent(s)) = "-" THEN -1 ELSE 1) * ToInt(ex) - Len(Fraction(s)) + zeros
            IN IF e \notin -250..250 THEN << >>
               ELSE <<IF Head(s) = "-" THEN "-" ELSE "+", sig, ToString(e)>>

Hilbert(s) == s # << >> /\ Head(s) \in {"h", "H"} /\ Within(Tail(s), Ilbert)
HilbertArg(s) == Inner(Tail(s), Ilbert)
RleNumber(a) == Within(a, Rle \o <<"(">>)
RleArg(a) == Inner(a, Rle \o <<"(">>)

\* "accept", "reject" or "either"
Verdict(s) ==
    CASE LowerAll(s) = Hufman \/ s \in {Delta, ZipDict, ZipBack} -> "accept"
      [] \E p \in Cluster \cup Voronoi : Within(s, p) /\ Count(Inner(s, p)) -> "accept"
      [] Hilbert(s) -> LET a == HilbertArg(s) IN
            CASE a \in {Rle, Zip} -> "accept"
              [] RleNumber(a) -> IF Number(RleArg(a)) THEN "accept" ELSE IF Unspecified(RleArg(a)) THEN "either" ELSE "reject"
              [] OTHER -> "reject"
      [] OTHER -> "reject"

\* The codec an accepted string denotes, << >> where this isn't certain
Denotes(s) ==
    CASE LowerAll(s) = Hufman -> <<"hufman">>
      [] s = Delta -> <<"delta">>
      [] s = ZipDict -> <<"zip", "dict">>
      [] s = ZipBack -> <<"zip", "back">>
      [] \E p \in Cluster : Within(s, p) -> <<"cluster", StripZeros(Inner(s, CHOOSE p \in Cluster : Within(s, p)))>>
      [] \E p \in Voronoi : Within(s, p) -> <<"voronoi", StripZeros(Inner(s, CHOOSE p \in Voronoi : Within(s, p)))>>
      [] OTHER -> LET a == HilbertArg(s) IN
            CASE a = Zip -> <<"hilbert", "zip">>
              [] a = Rle -> <<"rle", <<"0">>>>
              [] OTHER -> LET v == NumberValue(RleArg(a)) IN IF v = << >> THEN << >> ELSE <<"rle", v>>
==============================================================================
