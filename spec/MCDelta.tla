------------------------------- MODULE MCDelta -------------------------------
EXTENDS Delta
=============================================================================
