----------------------------- MODULE ZipBackFree -----------------------------
(* Any writer of the format of ZipBack: explicit symbols of any length, and
   references of any length to anywhere in the window. *)
EXTENDS MCZipBack

FreeReference ==
    /\ ipos < Len(input)
    /\ \E b \in Backs(ipos) : \E l \in 1..RepLen(input, ipos, b) :
         /\ stream' = Append(stream, [k |-> "r", len |-> l, back |-> b])
         /\ ipos' = ipos + l
    /\ UNCHANGED <<input, expl, ended, dpos, output>>

FreeExplicit ==
    /\ ipos < Len(input)
    /\ \E l \in 1..Min2(MaxLen, Len(input) - ipos) :
         /\ stream' = Append(stream, [k |-> "e", d |-> SubSeq(input, ipos + 1, ipos + l)])
         /\ ipos' = ipos + l
    /\ UNCHANGED <<input, expl, ended, dpos, output>>

FreeNext == FreeReference \/ FreeExplicit \/ EndOfInput \/ DecodeSymbol
FreeSpec == MCInit /\ [][FreeNext \/ Done]_vars /\ WF_vars(FreeNext)

WellFormedFree ==
    \A n \in 1..Len(stream) : LET x == stream[n] IN
        IF x.k = "e" THEN 1 <= Len(x.d) /\ Len(x.d) <= MaxLen
        ELSE 1 <= x.len /\ x.len <= MaxLen /\ x.len <= x.back /\ x.back <= Window
=============================================================================
