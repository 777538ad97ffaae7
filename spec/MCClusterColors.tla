--------------------------- MODULE MCClusterColors ---------------------------
EXTENDS ClusterColors
SomeColours == { <<0, 0>>, <<0, 3>>, <<1, 3>>, <<4, 0>> }
==============================================================================
