------------------------------ MODULE Workspace ------------------------------
(* Runs of the command line in one directory, one after another: benchmarks,
   dumps, and command lines that are refused.

   What the directory holds:
     report[c]   of codec c: is it there, how many rows for each image
     picture[i]  of image i: 0, or the codec whose reconstruction it shows
     dump[i]     the three files of image i: 0 none, 1 complete, 2 anything else
     rest        everything else, the images included
   An output can be broken for a while (the disk is full, its name is taken):
   it then holds nothing. *)
EXTENDS Common

CONSTANTS Codecs, Images,
    Lossy,    \* codecs that give other images back, but for
    Plain,    \* images that any codec gives back as they are
    Bad       \* images that can't be read

Altered(c, i) == c \in Lossy /\ i \notin Plain

Outputs == ({"report"} \X Codecs) \cup ({"picture", "dump"} \X Images)
Nothing == [i \in Images |-> 0]
Empty == [report  |-> [c \in Codecs |-> [there |-> 0, rows |-> Nothing]],
          picture |-> Nothing, dump |-> Nothing, rest |-> 0]

\* What becomes of a directory where these outputs are (or were) broken
Broken(d, bro) ==
    [report  |-> [c \in Codecs |-> IF <<"report", c>> \in bro THEN [there |-> 0, rows |-> Nothing] ELSE d.report[c]],
     picture |-> [i \in Images |-> IF <<"picture", i>> \in bro THEN 0 ELSE d.picture[i]],
     dump    |-> [i \in Images |-> IF <<"dump", i>> \in bro THEN 0 ELSE d.dump[i]],
     rest    |-> d.rest]

(* The contract of a run: [kind |-> "bench", "dump" or "refused", c, count]
   where count[i] tells how often image i is on the command line *)
Given(run) == { i \in Images : run.count[i] > 0 }
RowsOf(run, bro) ==
    [i \in Images |-> IF i \in Bad \/ (Altered(run.c, i) /\ <<"picture", i>> \in bro) THEN 0 ELSE run.count[i]]
PictureOf(run, bro, i, before) ==
    IF i \in Given(run) \ Bad /\ Altered(run.c, i) /\ <<"picture", i>> \notin bro THEN run.c ELSE before

\* only its own outputs
Frame(pre, run, post) ==
    /\ post.rest = pre.rest
    /\ \A c \in Codecs : run.kind # "bench" \/ c # run.c => post.report[c] = pre.report[c]
    /\ \A i \in Images : run.kind # "bench" \/ i \notin Given(run) => post.picture[i] = pre.picture[i]
    /\ \A i \in Images : run.kind # "dump" \/ i \notin Given(run) => post.dump[i] = pre.dump[i]

CanSucceed(run, bro) ==
    CASE run.kind = "refused" -> FALSE
      [] run.kind = "bench"   -> <<"report", run.c>> \notin bro
      [] run.kind = "dump"    -> \A i \in Given(run) : i \notin Bad /\ <<"dump", i>> \notin bro

\* status 0 when and only when its outputs are complete
Complete(pre, run, bro, post) ==
    CASE run.kind = "refused" -> FALSE
      [] run.kind = "bench" ->
            /\ post.report[run.c] = [there |-> 1, rows |-> RowsOf(run, bro)]
            /\ \A i \in Images : post.picture[i] = PictureOf(run, bro, i, pre.picture[i])
      [] run.kind = "dump" -> \A i \in Given(run) : post.dump[i] = 1

\* pictures that are there show what a codec made of them, even after a failure
Sound(pre, run, post) ==
    \A i \in Images : post.picture[i] \in {pre.picture[i], run.c}

Contract(pre, run, bro, post, ok) ==
    /\ Frame(pre, run, post)
    /\ ok <=> CanSucceed(run, bro)
    /\ ok => Complete(pre, run, bro, post)
    /\ run.kind = "bench" => Sound(pre, run, post)
=============================================================================
