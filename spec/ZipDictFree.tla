----------------------------- MODULE ZipDictFree -----------------------------
(* Any writer of the format of ZipDict: each symbol is any known one that
   matches, not the longest.  The decoder must follow all the same. *)
EXTENDS MCZipDict

FreeFirst ==
    /\ first = -1 /\ ipos < Len(input)
    /\ \E c \in Candidates(edict, ipos) :
         first' = c /\ ipos' = ipos + Len(Seqn(edict, c))
    /\ UNCHANGED <<input, edict, stream, ended, dpos, ddict, output>>

FreeSecond ==
    /\ first # -1 /\ ipos < Len(input)
    /\ \E c \in Candidates(edict, ipos) :
         /\ stream' = Append(stream, <<first, c>>)
         /\ ipos' = ipos + Len(Seqn(edict, c))
         /\ edict' = IF Room(edict) THEN Append(edict, Seqn(edict, first) \o Seqn(edict, c)) ELSE edict
    /\ first' = -1
    /\ UNCHANGED <<input, ended, dpos, ddict, output>>

FreeNext == FreeFirst \/ FreeSecond \/ EndOdd \/ EndEven \/ DecodePair
FreeSpec == MCInit /\ [][FreeNext \/ Done]_vars /\ WF_vars(FreeNext)
=============================================================================
