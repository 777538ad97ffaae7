------------------------------- MODULE RleFree -------------------------------
(* Any writer of the exact run-length format: a run may be closed at any time,
   and the next one may have the same colour. *)
EXTENDS MCRle, Json

FreeClose ==
    /\ cnt > 0
    /\ runs' = Append(runs, <<cnt, RoundedMean(sum, cnt)>>)
    /\ cnt' = 0 /\ sum' = << >>
    /\ UNCHANGED <<pixels, p, flushed>>

FreeNext == Start \/ Join \/ FreeClose \/ End
FreeSpec == MCInit /\ [][FreeNext \/ (flushed /\ UNCHANGED vars)]_vars /\ WF_vars(FreeNext)

Emit == flushed /\ PrintT("@@" \o ToJson([pixels |-> pixels, runs |-> runs])) /\ UNCHANGED vars
GenSpec == MCInit /\ [][FreeNext \/ Emit]_vars
V1 == {<<1>>, <<2>>}
=============================================================================
