------------------------------- MODULE ZipBack -------------------------------
(* The look-back compressor: explicit symbols, and references to what lies
   within the last Window letters.  An explicit symbol grows from 2 letters by
   doubling; whether a repetition starts at its end is only looked at each time
   it has grown.  A reference never overlaps what it produces.

   MinRep  shortest reference, MaxLen longest symbol of either kind. *)
EXTENDS Common

CONSTANTS Window, MinRep, MaxLen

VARIABLES
    input,
    ipos,      \* letters consumed by the encoder
    expl,      \* letters of the running explicit symbol
    stream,    \* symbols emitted: [k |-> "e", d |-> letters] or [k |-> "r", len, back]
    ended,
    dpos, output

vars == <<input, ipos, expl, stream, ended, dpos, output>>

\* length of the repetition available at p (letters consumed) at distance b
RECURSIVE Common2(_, _, _, _)
Common2(s, p, b, lim) == \* longest l <= lim with s[p+1..p+l] = s[p-b+1..p-b+l]
    IF lim = 0 THEN 0
    ELSE IF s[p + 1] # s[p - b + 1] THEN 0
    ELSE 1 + Common2(s, p + 1, b, lim - 1)
RepLen(s, p, b) == Common2(s, p, b, Min2(Min2(b, MaxLen), Len(s) - p))
Backs(p) == 1..Min2(p, Window)
Best(s, p) == IF Backs(p) = {} THEN 0
              ELSE LET L == {RepLen(s, p, b) : b \in Backs(p)} IN CHOOSE m \in L : \A x \in L : x <= m

Init(inputs) ==
    /\ input \in inputs
    /\ ipos = 0 /\ expl = << >> /\ stream = << >> /\ ended = FALSE
    /\ dpos = 0 /\ output = << >>

Flush == IF expl = << >> THEN stream ELSE Append(stream, [k |-> "e", d |-> expl])

Reference ==
    /\ ipos < Len(input) /\ ~ended
    /\ Len(expl) < MaxLen
    /\ Best(input, ipos) >= MinRep
    /\ \E b \in Backs(ipos) :
         /\ RepLen(input, ipos, b) = Best(input, ipos)
         /\ stream' = Append(Flush, [k |-> "r", len |-> Best(input, ipos), back |-> b])
    /\ ipos' = ipos + Best(input, ipos)
    /\ expl' = << >>
    /\ UNCHANGED <<input, ended, dpos, output>>

Explicit ==
    /\ ipos < Len(input) /\ ~ended
    /\ Best(input, ipos) < MinRep
    /\ LET want == Min2(Max2(Len(expl), 2), MaxLen - Len(expl))
           got == Min2(want, Len(input) - ipos)
           e == expl \o SubSeq(input, ipos + 1, ipos + got)
       IN /\ ipos' = ipos + got
          /\ IF Len(e) = MaxLen
             THEN expl' = << >> /\ stream' = Append(stream, [k |-> "e", d |-> e])
             ELSE expl' = e /\ UNCHANGED stream
    /\ UNCHANGED <<input, ended, dpos, output>>

EndOfInput ==
    /\ ipos = Len(input) /\ ~ended
    /\ stream' = Flush /\ expl' = << >> /\ ended' = TRUE
    /\ UNCHANGED <<input, ipos, dpos, output>>

\* The decoder accepts any symbol that makes sense
DecodeSymbol ==
    /\ dpos < Len(stream)
    /\ LET x == stream[dpos + 1] IN
       IF x.k = "e" THEN output' = output \o x.d
       ELSE /\ x.back <= Len(output) /\ x.back <= Window /\ x.len <= x.back
            /\ output' = output \o SubSeq(output, Len(output) - x.back + 1, Len(output) - x.back + x.len)
    /\ dpos' = dpos + 1
    /\ UNCHANGED <<input, ipos, expl, stream, ended>>

Next == Reference \/ Explicit \/ EndOfInput \/ DecodeSymbol

Decodable == dpos < Len(stream) => ENABLED DecodeSymbol
OutputIsPrefix == Len(output) <= Len(input) /\ output = SubSeq(input, 1, Len(output))
RoundTrip == ended /\ dpos = Len(stream) => output = input
RECURSIVE Covered(_)
Covered(n) == IF n = 0 THEN 0 ELSE Covered(n - 1) + (IF stream[n].k = "e" THEN Len(stream[n].d) ELSE stream[n].len)
WellFormed ==
    \A n \in 1..Len(stream) : LET x == stream[n] IN
        IF x.k = "e" THEN 1 <= Len(x.d) /\ Len(x.d) <= MaxLen
        ELSE MinRep <= x.len /\ x.len <= MaxLen /\ x.len <= x.back /\ x.back <= Window
\* references are maximal, explicit symbols start where there is no repetition
Maximal ==
    \A n \in 1..Len(stream) : LET x == stream[n] p == Covered(n - 1) IN
        IF x.k = "e" THEN Best(input, p) < MinRep ELSE x.len = Best(input, p)
=============================================================================
