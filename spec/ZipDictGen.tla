----------------------------- MODULE ZipDictGen -----------------------------
(* What the compressor of ZipDict writes for all small inputs, printed to be
   compared with what the real one writes. *)
EXTENDS MCZipDict, Json
Emit == ended /\ dpos = 0 /\ PrintT("@@" \o ToJson([input |-> input, stream |-> stream])) /\ UNCHANGED vars
GenNext == First \/ Second \/ EndOdd \/ EndEven \/ Emit
GenSpec == MCInit /\ [][GenNext]_vars
=============================================================================
