--------------------------- MODULE ZipBackFreeGen ---------------------------
(* All the streams any writer may produce for the small inputs, printed with
   their meaning. *)
EXTENDS ZipBackFree, Json
Plain(s) == [n \in 1..Len(s) |-> IF s[n].k = "e" THEN [k |-> 0, d |-> s[n].d] ELSE [k |-> 1, d |-> <<s[n].len, s[n].back>>]]
Emit == ended /\ dpos = 0 /\ PrintT("@@" \o ToJson([input |-> input, stream |-> Plain(stream)])) /\ UNCHANGED vars
GenSpec == MCInit /\ [][FreeReference \/ FreeExplicit \/ EndOfInput \/ Emit]_vars
=============================================================================
