---------------------------- MODULE FunCallTrace ----------------------------
(* What the parser made of strings.
   trace = << [s |-> characters, out |-> "some" / "none" / ..., name, args |-> characters] >> *)
EXTENDS FunCall, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, c, k, m
vars == <<tr, c, k, m>>
T == Traces[tr].cases
TInit == tr \in 1..Len(Traces) /\ c = 1 /\ k = 0 /\ m = Start
Batch == 100
Read ==
    /\ c <= Len(T) /\ k < Len(T[c].s)
    /\ LET e == Min2(k + Batch, Len(T[c].s)) IN m' = Run(m, T[c].s, k + 1, e) /\ k' = e
    /\ UNCHANGED <<tr, c>>
Result ==
    /\ c <= Len(T) /\ k = Len(T[c].s)
    /\ LET x == T[c] IN
        IF m.st = "end" THEN x.out = "some" /\ x.name = m.name /\ x.args = m.args
                        ELSE x.out = "none"
    /\ c' = c + 1 /\ k' = 0 /\ m' = Start /\ UNCHANGED tr
End == c > Len(T) /\ UNCHANGED vars
TNext == Read \/ Result \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
