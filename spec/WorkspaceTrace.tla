--------------------------- MODULE WorkspaceTrace ---------------------------
(* Histories of real runs in one directory.

   trace = [steps |-> << [kind, c, count |-> per image,
       bro |-> << <<output, number>> >> broken during the run,
       ok |-> 1 when its status was 0, told |-> 1 when the error output has something,
       report |-> per codec [there, rows |-> per image: rows that are those of the image alone,
                             head |-> 1 when the header comes first, junk |-> number of other lines],
       picture, dump |-> per image, rest |-> 0 while nothing else has changed] >>] *)
EXTENDS Workspace, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, n, dir, bro
vars == <<tr, n, dir, bro>>
T == Traces[tr]

TInit == tr \in 1..Len(Traces) /\ n = 0 /\ dir = Empty /\ bro = {}

S == T.steps[n + 1]
RunOf(s) == [kind |-> s.kind, c |-> s.c, count |-> [i \in Images |-> s.count[i]]]
Found(s) == [report  |-> [c \in Codecs |-> [there |-> s.report[c].there, rows |-> [i \in Images |-> s.report[c].rows[i]]]],
             picture |-> [i \in Images |-> s.picture[i]],
             dump    |-> [i \in Images |-> s.dump[i]],
             rest    |-> s.rest]
\* the lines of a report: a header when there are rows, nothing else
Clean(r) == r.junk = 0 /\ r.head = IF SumSeq(r.rows) > 0 THEN 1 ELSE 0

Step ==
    /\ n < Len(T.steps)
    /\ bro' = { <<S.bro[k][1], S.bro[k][2]>> : k \in 1..Len(S.bro) }
    /\ bro' \subseteq Outputs
    /\ LET pre == Broken(dir, bro \cup bro')  run == RunOf(S)  post == Found(S) IN
        /\ Holds(Contract(pre, run, bro', post, S.ok = 1))
        /\ S.ok = 0 => S.told = 1
        /\ S.ok = 1 /\ S.kind = "bench" => Clean(S.report[S.c])
        /\ dir' = post
    /\ n' = n + 1 /\ UNCHANGED tr
End == n = Len(T.steps) /\ UNCHANGED vars
TNext == Step \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
