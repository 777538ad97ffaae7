------------------------------ MODULE MCZipBack ------------------------------
EXTENDS ZipBack
CONSTANTS Letters, MaxInput
MCInit == Init(SeqsUpTo(1..Letters, MaxInput))
Done == ended /\ dpos = Len(stream) /\ UNCHANGED vars
MCNext == Next \/ Done
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)
Terminates == <>(ended /\ dpos = Len(stream))
=============================================================================
