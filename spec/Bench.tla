-------------------------------- MODULE Bench --------------------------------
(* A benchmark run: one task per image, run by a few threads, which encodes,
   decodes, compares and adds a row to the shared report; the report is written
   piece by piece, under a lock.

   plan[t] says what will happen to image t:
     "ok"    comes back as it was
     "diff"  comes back different (a failure if the codec is lossless)
     "save"  comes back different, and the picture of it can't be written
     "open", "enc", "dec"  can't be opened, encoded, decoded *)
EXTENDS Common

CONSTANTS Tasks, Threads, Outcomes,
    Locked,    \* FALSE: the report is written without the lock (to be refuted)
    Early      \* TRUE: the run stops at the first error (to be refuted)

VARIABLES lossless, plan, pc,
    holder,    \* the task that has the lock, or 0
    wrote,     \* header written
    file,      \* pieces in the report: <<task (0: header), 1 or 2>>
    errors,    \* tasks reported on the error output
    pics,      \* tasks whose picture was written
    finished

vars == <<lossless, plan, pc, holder, wrote, file, errors, pics, finished>>

Success(t) == plan[t] = "ok" \/ (plan[t] = "diff" /\ ~lossless)

Init ==
    /\ lossless \in BOOLEAN
    /\ plan \in [1..Tasks -> Outcomes]
    /\ pc = [t \in 1..Tasks |-> "idle"]
    /\ holder = 0 /\ wrote = FALSE /\ file = << >> /\ errors = {} /\ pics = {} /\ finished = FALSE

Running == { t \in 1..Tasks : pc[t] \notin {"idle", "done"} }
Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Rest == <<lossless, plan, finished>>

Start(t) ==
    /\ Cardinality(Running) < Threads
    /\ ~(Early /\ errors # {})
    /\ Go(t, "idle", "opening")
    /\ UNCHANGED <<holder, wrote, file, errors, pics, Rest>>

Report(t, from) ==
    /\ Go(t, from, "done") /\ errors' = errors \cup {t}
    /\ UNCHANGED <<holder, wrote, file, pics, Rest>>

\* a step that this plan makes fail
Step(t, from, to, bad) ==
    IF plan[t] = bad THEN Report(t, from)
    ELSE Go(t, from, to) /\ UNCHANGED <<holder, wrote, file, errors, pics, Rest>>

Open(t) == Step(t, "opening", "encoding", "open")
Encode(t) == Step(t, "encoding", "decoding", "enc")
Decode(t) == Step(t, "decoding", "comparing", "dec")
Compare(t) ==
    /\ pc[t] = "comparing"
    /\ CASE plan[t] = "ok" -> Go(t, "comparing", "locking") /\ UNCHANGED <<holder, wrote, file, errors, pics, Rest>>
         [] plan[t] = "save" -> Report(t, "comparing")
         [] OTHER ->
              /\ pics' = pics \cup {t}
              /\ IF lossless
                 THEN Go(t, "comparing", "done") /\ errors' = errors \cup {t}
                 ELSE Go(t, "comparing", "locking") /\ errors' = errors
              /\ UNCHANGED <<holder, wrote, file, Rest>>

Lock(t) ==
    /\ IF Locked THEN holder = 0 /\ holder' = t ELSE holder' = holder
    /\ Go(t, "locking", IF wrote THEN "row1" ELSE "head1")
    /\ UNCHANGED <<wrote, file, errors, pics, Rest>>
Piece(t, from, to, piece) ==
    /\ Go(t, from, to) /\ file' = Append(file, piece)
Head1(t) == Piece(t, "head1", "head2", <<0, 1>>) /\ UNCHANGED <<holder, wrote, errors, pics, Rest>>
Head2(t) == Piece(t, "head2", "row1", <<0, 2>>) /\ wrote' = TRUE /\ UNCHANGED <<holder, errors, pics, Rest>>
Row1(t) == Piece(t, "row1", "row2", <<t, 1>>) /\ UNCHANGED <<holder, wrote, errors, pics, Rest>>
Row2(t) == /\ Piece(t, "row2", "done", <<t, 2>>) /\ holder' = 0
           /\ UNCHANGED <<wrote, errors, pics, Rest>>

Finish ==
    /\ ~finished /\ \A t \in 1..Tasks : pc[t] = "done" \/ (Early /\ errors # {} /\ pc[t] = "idle")
    /\ finished' = TRUE
    /\ UNCHANGED <<lossless, plan, pc, holder, wrote, file, errors, pics>>

Act(t) == Start(t) \/ Open(t) \/ Encode(t) \/ Decode(t) \/ Compare(t) \/ Lock(t) \/ Head1(t) \/ Head2(t) \/ Row1(t) \/ Row2(t)
Next == (\E t \in 1..Tasks : Act(t)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The guarantees *)
Successes == { t \in 1..Tasks : Success(t) }
Whole(s) == \A k \in 1..Len(s) : (k % 2 = 1) => s[k][2] = 1 /\ k < Len(s) /\ s[k + 1] = <<s[k][1], 2>>
Owners == { file[k][1] : k \in 1..Len(file) }
GoodReport == finished =>
    IF Successes = {} THEN file = << >>
    ELSE /\ Len(file) = 2 * (Cardinality(Successes) + 1)
         /\ Whole(file)
         /\ file[1] = <<0, 1>>
         /\ { file[k] : k \in 1..Len(file) } = {<<0, 1>>, <<0, 2>>} \cup (Successes \X {1, 2})
Reported == finished => errors = (1..Tasks) \ Successes
Pictures == finished => pics = { t \in 1..Tasks : plan[t] = "diff" }
Completes == <>finished
==============================================================================
