----------------------------- MODULE HistoryGen -----------------------------
(* Call histories for one or several threads, printed to be replayed: the
   calls of each thread in order ("x": an encoding whose writer breaks, "t": a
   decoding of a stream cut short, if Faults).  Decodings refer to streams this thread has
   made before (so that they are available whatever the interleaving). *)
EXTENDS Common, Json

CONSTANTS NThreads, NCodecs, NImages, Calls, Faults

VARIABLES scripts, t, emitted

vars == <<scripts, t, emitted>>

Init == scripts = [k \in 1..NThreads |-> << >>] /\ t = 1 /\ emitted = FALSE

Made(s) == {<<s[n][2], s[n][3]>> : n \in {m \in 1..Len(s) : s[m][1] = "e"}}

Call ==
    /\ t <= NThreads /\ Len(scripts[t]) < Calls
    /\ \/ \E c \in 1..NCodecs, i \in 1..NImages : scripts' = [scripts EXCEPT ![t] = Append(@, <<"e", c, i>>)]
       \/ \E x \in Made(scripts[t]) : scripts' = [scripts EXCEPT ![t] = Append(@, <<"d", x[1], x[2]>>)]
       \/ Faults /\ \E c \in 1..NCodecs, i \in 1..NImages : scripts' = [scripts EXCEPT ![t] = Append(@, <<"x", c, i>>)]
       \/ Faults /\ \E x \in Made(scripts[t]) : scripts' = [scripts EXCEPT ![t] = Append(@, <<"t", x[1], x[2]>>)]
    /\ UNCHANGED <<t, emitted>>
NextThread == t <= NThreads /\ Len(scripts[t]) = Calls /\ t' = t + 1 /\ UNCHANGED <<scripts, emitted>>
Emit == t = NThreads + 1 /\ ~emitted /\ emitted' = TRUE /\ PrintT("@@" \o ToJson(scripts)) /\ UNCHANGED <<scripts, t>>
Next == Call \/ NextThread \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
