--------------------------- MODULE ZipDictFreeGen ---------------------------
(* All the streams any writer may produce for the small inputs, printed with
   their meaning. *)
EXTENDS ZipDictFree, Json
Emit == ended /\ dpos = 0 /\ PrintT("@@" \o ToJson([input |-> input, stream |-> stream])) /\ UNCHANGED vars
GenSpec == MCInit /\ [][FreeFirst \/ FreeSecond \/ EndOdd \/ EndEven \/ Emit]_vars
=============================================================================
