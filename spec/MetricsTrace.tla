---------------------------- MODULE MetricsTrace ----------------------------
(* Rows of real reports.
   trace = [w, h, cells |-> << [a, b |-> colours (original, shown), n |-> pixels] >>, lossless |-> 0/1,
            written |-> bytes the codec wrote (-1: unknown),
            size |-> reported, ratio, error |-> digits, rw, ew |-> digits before the point] *)
EXTENDS Metrics, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, sum, px, done
vars == <<tr, k, sum, px, done>>
T == Traces[tr]
Batch == 64

TInit == tr \in 1..Len(Traces) /\ k = 0 /\ sum = <<0, 0>> /\ px = 0 /\ done = FALSE
Pairs ==
    /\ k < Len(T.cells)
    /\ LET e == Min2(k + Batch, Len(T.cells)) IN
        /\ sum' = SumFrom(T.cells, k + 1, e, sum)
        /\ px' = px + SumOver(T.cells, k + 1, e)
        /\ k' = e
    /\ UNCHANGED <<tr, done>>
Row ==
    /\ k = Len(T.cells) /\ ~done
    /\ px = T.w * T.h
    /\ T.size > 0 /\ (T.written >= 0 => T.size = T.written)
    /\ T.rw = 12 /\ RatioRight(T.size, px, T.ratio)
    /\ T.ew = 16 /\ ErrorRight(sum, px, T.error)
    /\ T.lossless = 1 => sum = <<0, 0>>
    /\ done' = TRUE /\ UNCHANGED <<tr, k, sum, px>>
End == done /\ UNCHANGED vars
TNext == Pairs \/ Row \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
