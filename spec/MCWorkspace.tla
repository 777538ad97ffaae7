---------------------------- MODULE MCWorkspace ----------------------------
(* The program's way of fulfilling the contract of Workspace: the report is
   created when the run begins, the rows are collected in a buffer, which is
   written when it is full and at the end. *)
EXTENDS Workspace

CONSTANTS Runs, MaxList, BufferSize,
    Appends,     \* TRUE: reports are opened for appending          (to be refuted)
    Sweeps,      \* TRUE: what earlier runs left is removed first   (to be refuted)
    Unflushed,   \* TRUE: the last write's errors are not looked at (to be refuted)
    Early        \* TRUE: the report is created before the codec is known (to be refuted)

VARIABLES dir, bro, run, phase, todo, buffer, pre, ok, n
vars == <<dir, bro, run, phase, todo, buffer, pre, ok, n>>

Some(S, k) == { f \in [S -> 0..k] : SumFun(f, S) <= k }
NoRun == [kind |-> "none", c |-> CHOOSE c \in Codecs : TRUE, count |-> Nothing]

Init ==
    /\ dir = Empty /\ bro = {} /\ run = NoRun /\ phase = "idle" /\ todo = Nothing /\ buffer = Nothing
    /\ pre = Empty /\ ok = TRUE /\ n = 0

Environment ==
    /\ phase = "idle" /\ n < Runs
    /\ \E o \in Outputs : bro' = IF o \in bro THEN bro \ {o} ELSE bro \cup {o}
    /\ Cardinality(bro') <= 2
    /\ dir' = Broken(dir, bro \cup bro')
    /\ pre' = Empty /\ run' = NoRun /\ ok' = TRUE     \* forget the run before
    /\ UNCHANGED <<phase, todo, buffer, n>>

Begin ==
    /\ phase = "idle" /\ n < Runs
    /\ \E k \in {"bench", "dump", "refused"}, c \in Codecs, f \in Some(Images, MaxList) :
          run' = [kind |-> k, c |-> c, count |-> f]
    /\ pre' = dir /\ n' = n + 1
    /\ todo' = run'.count /\ buffer' = Nothing
    /\ phase' = IF run'.kind = "refused" THEN "refuse" ELSE IF run'.kind = "bench" THEN "create" ELSE "dump"
    /\ UNCHANGED <<dir, bro, ok>>

Done(good) == phase' = "idle" /\ ok' = good
Here(o) == o \notin bro
Refuse ==
    /\ phase = "refuse" /\ Done(FALSE)
    /\ dir' = IF Early THEN [dir EXCEPT !.report[run.c] = [there |-> 1, rows |-> Nothing]] ELSE dir
    /\ UNCHANGED <<bro, run, todo, buffer, pre, n>>

Create ==
    /\ phase = "create"
    /\ IF Here(<<"report", run.c>>)
       THEN /\ phase' = "measure" /\ ok' = ok
            /\ LET d == IF Sweeps THEN [dir EXCEPT !.picture = Nothing] ELSE dir IN
               dir' = [d EXCEPT !.report[run.c] = [there |-> 1, rows |-> IF Appends THEN @.rows ELSE Nothing]]
       ELSE \* the name is taken, or the disk is full: found out now or when writing
            \/ Done(FALSE) /\ dir' = dir
            \/ phase' = "measure" /\ UNCHANGED <<dir, ok>>
    /\ UNCHANGED <<bro, run, todo, buffer, pre, n>>

Write(rows) == IF Here(<<"report", run.c>>) THEN [dir EXCEPT !.report[run.c].rows = [i \in Images |-> @[i] + rows[i]]] ELSE dir

Measure ==
    /\ phase = "measure"
    /\ \E i \in { j \in Images : todo[j] > 0 } :
        /\ todo' = [todo EXCEPT ![i] = @ - 1]
        /\ IF i \in Bad \/ (Altered(run.c, i) /\ ~Here(<<"picture", i>>))
           THEN UNCHANGED <<dir, buffer>>
           ELSE LET d == Write(buffer)
                    full == SumFun(buffer, Images) = BufferSize
                    e == IF full THEN d ELSE dir
                IN
                /\ buffer' = IF full THEN [Nothing EXCEPT ![i] = 1] ELSE [buffer EXCEPT ![i] = @ + 1]
                /\ dir' = IF Altered(run.c, i) THEN [e EXCEPT !.picture[i] = run.c] ELSE e
    /\ UNCHANGED <<bro, run, phase, pre, ok, n>>

Close ==
    /\ phase = "measure" /\ \A i \in Images : todo[i] = 0
    /\ dir' = Write(buffer)
    /\ Done(Unflushed \/ Here(<<"report", run.c>>))
    /\ UNCHANGED <<bro, run, todo, buffer, pre, n>>

Dump ==
    /\ phase = "dump"
    /\ \E i \in { j \in Images : todo[j] > 0 } :
        /\ todo' = [todo EXCEPT ![i] = @ - 1]
        /\ IF i \in Bad
           THEN Done(FALSE) /\ dir' = dir
           ELSE IF Here(<<"dump", i>>)
           THEN dir' = [dir EXCEPT !.dump[i] = 1] /\ UNCHANGED <<phase, ok>>
           ELSE IF Unflushed THEN UNCHANGED <<dir, phase, ok>> ELSE Done(FALSE) /\ dir' = dir
    /\ UNCHANGED <<bro, run, buffer, pre, n>>
DumpDone ==
    /\ phase = "dump" /\ \A i \in Images : todo[i] = 0
    /\ Done(TRUE) /\ UNCHANGED <<dir, bro, run, todo, buffer, pre, n>>

Next == Environment \/ Begin \/ Refuse \/ Create \/ Measure \/ Close \/ Dump \/ DumpDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Refuse \/ Create \/ Measure \/ Close \/ Dump \/ DumpDone)

Fulfilled == phase = "idle" /\ run # NoRun => Contract(pre, run, bro, dir, ok)
Ends == (phase # "idle") ~> (phase = "idle")
=============================================================================
