------------------------------ MODULE MCSession ------------------------------
EXTENDS Session
MCLossless(c) == c = "exact"
MCDim(i) == IF i = "tall" THEN <<1, 2>> ELSE <<2, 1>>
=============================================================================
