------------------------------ MODULE ImageGen ------------------------------
(* All images with at most MaxPixels pixels up to a renaming of the colours:
   the raster of colour numbers is a restricted growth string (a colour's first
   occurrence comes after those of all the smaller ones).  The behaviours are
   printed and replayed into the real codecs. *)
EXTENDS Common, Json

CONSTANTS MaxPixels, MaxColors

VARIABLES px, dims

vars == <<px, dims>>

MaxOf(s) == IF s = << >> THEN 0 ELSE LET S == {s[i] : i \in 1..Len(s)} IN CHOOSE m \in S : \A x \in S : x <= m

Init == px = << >> /\ dims = <<0, 0>>

AddPixel ==
    /\ dims = <<0, 0>> /\ Len(px) < MaxPixels
    /\ \E c \in 1..Min2(MaxOf(px) + 1, MaxColors) : px' = Append(px, c)
    /\ UNCHANGED dims

Shape ==
    /\ dims = <<0, 0>> /\ px # << >>
    /\ \E w \in 1..Len(px) :
         /\ Len(px) % w = 0
         /\ dims' = <<w, Len(px) \div w>>
         /\ PrintT("@@" \o ToJson([w |-> w, h |-> Len(px) \div w, px |-> px]))
    /\ UNCHANGED px

Next == AddPixel \/ Shape \/ (dims # <<0, 0>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in 1..Len(px) : px[i] \in 1..MaxColors /\ px[i] <= MaxOf(SubSeq(px, 1, i - 1)) + 1
=============================================================================
