------------------------------- MODULE MCBench -------------------------------
EXTENDS Bench
AllOutcomes == {"ok", "diff", "save", "open", "enc", "dec"}
SomeOutcomes == {"ok", "diff", "enc"}
==============================================================================
