---------------------------- MODULE CodecArgTrace ----------------------------
(* What the codec parser made of strings.
   trace = << [s |-> characters, out |-> "ok" / "err" / ..., name |-> the codec's name] >> *)
EXTENDS CodecArg, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, c, seen        \* seen: <<codec, name>> of the accepted ones
vars == <<tr, c, seen>>
T == Traces[tr].cases
TInit == tr \in 1..Len(Traces) /\ c = 1 /\ seen = {}
Case ==
    /\ c <= Len(T)
    /\ LET x == T[c]  v == Verdict(x.s) IN
        /\ x.out \in (CASE v = "accept" -> {"ok"} [] v = "reject" -> {"err"} [] OTHER -> {"ok", "err"})
        /\ IF v # "accept" \/ Denotes(x.s) = << >> THEN UNCHANGED seen
           ELSE LET d == Denotes(x.s) IN
                /\ \A y \in seen : y[2] = x.name => y[1] = d           \* different codecs have different names
                /\ seen' = seen \cup {<<d, x.name>>}
    /\ c' = c + 1 /\ UNCHANGED tr
End == c > Len(T) /\ UNCHANGED vars
TNext == Case \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
