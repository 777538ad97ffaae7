------------------------------ MODULE MCZipDict ------------------------------
EXTENDS ZipDict
CONSTANT MaxLen
MCInit == Init(SeqsUpTo(0..Base - 1, MaxLen))
Done == ended /\ dpos = Len(stream) /\ UNCHANGED vars
MCNext == Next \/ Done
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)
Terminates == <>(ended /\ dpos = Len(stream))
=============================================================================
