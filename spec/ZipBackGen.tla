----------------------------- MODULE ZipBackGen -----------------------------
(* The symbols the compressor of ZipBack writes for small inputs (kinds and
   lengths, which are determined), printed to be compared with the real ones. *)
EXTENDS MCZipBack, Json
Shape(s) == [n \in 1..Len(s) |-> IF s[n].k = "e" THEN <<0, Len(s[n].d)>> ELSE <<1, s[n].len>>]
Emit == ended /\ dpos = 0 /\ PrintT("@@" \o ToJson([input |-> input, stream |-> Shape(stream)])) /\ UNCHANGED vars
GenNext == Reference \/ Explicit \/ EndOfInput \/ Emit
GenSpec == MCInit /\ [][GenNext]_vars
=============================================================================
