-------------------------------- MODULE MCRle --------------------------------
EXTENDS Rle
CONSTANTS MaxLen, Values
MCInit == Init({s \in SeqsUpTo(Values, MaxLen) : s # << >>})
MCNext == Next \/ (flushed /\ UNCHANGED vars)
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)
Terminates == <>flushed
V2 == {<<a>> : a \in {0, 1, 4}}
V3 == {<<0, 0, 0>>, <<1, 2, 2>>, <<255, 255, 255>>, <<3, 0, 1>>}
=============================================================================
