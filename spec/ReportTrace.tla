---------------------------- MODULE ReportTrace ----------------------------
(* The picture of one image of a real run, next to its row.
   trace = [lossless |-> 0/1 (of the codec), w, h, has |-> 1 when output/<stem>.png was written, pw, ph |-> its size,
            cells |-> << [a, b, c |-> colours (original, decoded, in the picture; c = b without one), n |-> pixels] >>,
            row |-> 1 when there is a row, error |-> its digits, ew |-> digits before the point] *)
EXTENDS Metrics, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, sum, px, differs, done
vars == <<tr, k, sum, px, differs, done>>
T == Traces[tr]
Batch == 64

TInit == tr \in 1..Len(Traces) /\ k = 0 /\ sum = <<0, 0>> /\ px = 0 /\ differs = FALSE /\ done = FALSE
\* Every pixel of the picture is the decoded one
Pixels ==
    /\ k < Len(T.cells)
    /\ LET e == Min2(k + Batch, Len(T.cells)) IN
        /\ \A i \in (k + 1)..e : T.cells[i].c = T.cells[i].b
        /\ sum' = SumFrom([i \in 1..Len(T.cells) |-> [a |-> T.cells[i].a, b |-> T.cells[i].c, n |-> T.cells[i].n]], k + 1, e, sum)
        /\ px' = px + SumOver(T.cells, k + 1, e)
        /\ differs' = (differs \/ \E i \in (k + 1)..e : T.cells[i].a # T.cells[i].b)
        /\ k' = e
    /\ UNCHANGED <<tr, done>>
Picture ==
    /\ k = Len(T.cells) /\ ~done
    /\ px = T.w * T.h
    /\ T.has = IF differs THEN 1 ELSE 0
    /\ T.has = 1 => T.pw = T.w /\ T.ph = T.h
    /\ T.row = IF differs /\ T.lossless = 1 THEN 0 ELSE 1
    /\ T.row = 1 => T.ew = 16 /\ ErrorRight(sum, px, T.error)
    /\ done' = TRUE /\ UNCHANGED <<tr, k, sum, px, differs>>
End == done /\ UNCHANGED vars
TNext == Pixels \/ Picture \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
