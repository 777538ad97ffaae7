------------------------------- MODULE ZipDict -------------------------------
(* The dictionary compressor: pairs of symbols over a dictionary that both
   sides extend with the concatenation of every pair, as long as there are
   codes left.

   Base      number of codes standing for single letters (0..Base-1)
   LastCode  the greatest code that can be defined; Eof the code for "nothing"

   Encoder and decoder are separate machines connected by the stream of pairs;
   the encoder runs ahead of the decoder as it likes. *)
EXTENDS Common

CONSTANTS Base, LastCode, Eof

VARIABLES
    input,     \* what is compressed
    ipos,      \* letters consumed by the encoder
    edict,     \* encoder's dictionary: code -> sequence, as a sequence of the defined ones
    first,     \* first symbol of the running pair, or -1
    stream,    \* pairs emitted
    ended,     \* the encoder is done
    dpos,      \* pairs consumed by the decoder
    ddict,     \* decoder's dictionary
    output     \* letters decoded

vars == <<input, ipos, edict, first, stream, ended, dpos, ddict, output>>

Code(k) == Base + k - 1                 \* code of the k-th definition
Seqn(dict, c) == IF c < Base THEN <<c>> ELSE dict[c - Base + 1]
Known(dict, c) == c < Base \/ (c >= Base /\ c - Base + 1 <= Len(dict))
Room(dict) == Code(Len(dict) + 1) <= LastCode

Matches(s, p) == p + Len(s) <= Len(input) /\ SubSeq(input, p + 1, p + Len(s)) = s
\* the codes that match the input at p
Candidates(dict, p) == {c \in 0..Code(Len(dict)) : Matches(Seqn(dict, c), p)}
Longest(dict, p) == CHOOSE c \in Candidates(dict, p) :
                       \A d \in Candidates(dict, p) : Len(Seqn(dict, d)) <= Len(Seqn(dict, c))

Init(inputs) ==
    /\ input \in inputs
    /\ ipos = 0 /\ edict = << >> /\ first = -1 /\ stream = << >> /\ ended = FALSE
    /\ dpos = 0 /\ ddict = << >> /\ output = << >>

\* One symbol: the longest known sequence matching the input
First ==
    /\ first = -1 /\ ipos < Len(input)
    /\ first' = Longest(edict, ipos)
    /\ ipos' = ipos + Len(Seqn(edict, first'))
    /\ UNCHANGED <<input, edict, stream, ended, dpos, ddict, output>>

Second ==
    /\ first # -1 /\ ipos < Len(input)
    /\ LET c == Longest(edict, ipos) IN
         /\ stream' = Append(stream, <<first, c>>)
         /\ ipos' = ipos + Len(Seqn(edict, c))
         /\ edict' = IF Room(edict) THEN Append(edict, Seqn(edict, first) \o Seqn(edict, c)) ELSE edict
    /\ first' = -1
    /\ UNCHANGED <<input, ended, dpos, ddict, output>>

\* The input ends between two symbols of a pair, or between two pairs
EndOdd ==
    /\ first # -1 /\ ipos = Len(input)
    /\ stream' = Append(stream, <<first, Eof>>)
    /\ first' = -1 /\ ended' = TRUE
    /\ UNCHANGED <<input, ipos, edict, dpos, ddict, output>>
EndEven ==
    /\ first = -1 /\ ipos = Len(input) /\ ~ended
    /\ ended' = TRUE
    /\ UNCHANGED <<input, ipos, edict, first, stream, dpos, ddict, output>>

DecodePair ==
    /\ dpos < Len(stream)
    /\ LET p == stream[dpos + 1]
           s == Seqn(ddict, p[1]) \o (IF p[2] = Eof THEN << >> ELSE Seqn(ddict, p[2]))
       IN /\ Known(ddict, p[1]) /\ (p[2] = Eof \/ Known(ddict, p[2]))
          /\ output' = output \o s
          /\ ddict' = IF Room(ddict) THEN Append(ddict, s) ELSE ddict
    /\ dpos' = dpos + 1
    /\ UNCHANGED <<input, ipos, edict, first, stream, ended>>

Next == First \/ Second \/ EndOdd \/ EndEven \/ DecodePair

(* Guarantees *)
\* the decoder never meets a code it doesn't know
Decodable == dpos < Len(stream) => ENABLED DecodePair
\* the dictionaries agree as far as the decoder got
Synchronised ==
    \A k \in 1..Min2(Len(ddict), Len(edict)) : ddict[k] = edict[k]
OutputIsPrefix == Len(output) <= Len(input) /\ output = SubSeq(input, 1, Len(output))
RoundTrip == ended /\ dpos = Len(stream) => output = input
EofOnlyLast == \A k \in 1..Len(stream) : stream[k][1] # Eof /\ (stream[k][2] = Eof => k = Len(stream) /\ ended)
NoDuplicates == \A a, b \in 1..Len(edict) : a # b => edict[a] # edict[b]
CodesBounded == Code(Len(edict)) <= LastCode /\ LastCode < Eof
=============================================================================
