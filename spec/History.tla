------------------------------- MODULE History -------------------------------
(* Concurrent calls on shared codec objects.  A call takes several steps, in
   which it accumulates its result in a scratch area; the area belongs to the
   call, so that results are functions of the arguments alone, whatever ran
   before or runs meanwhile.  (With Shared = TRUE the area belongs to the codec
   object and outlives the call; with Leaky = TRUE it belongs to the thread and
   is only emptied by the calls that end well: TLC then finds histories with
   wrong results, which shows that the invariants are not empty.)

   A call can also fail on its way: the writer of an encoding breaks, the
   stream of a decoding ends too early. *)
EXTENDS Common

CONSTANTS Threads, Codecs, Images, MaxCalls, Steps, Shared, Leaky

VARIABLES
    call,      \* running call of each thread: [op, c, i, step] or Idle
    scratch,   \* per thread, or per codec if Shared: sequence of pieces
    made,      \* results of completed encodings: set of [c, i, val]
    ncalls, results

vars == <<call, scratch, made, ncalls, results>>

Idle == [op |-> "idle"]
Areas == IF Shared THEN Codecs ELSE Threads
Area(t, c) == IF Shared THEN c ELSE t

\* the stream of image i under codec c: its pieces in order
Stream(c, i) == [n \in 1..Steps |-> <<c, i, n>>]

Init ==
    /\ call = [t \in Threads |-> Idle]
    /\ scratch = [a \in Areas |-> << >>]
    /\ made = {} /\ ncalls = 0 /\ results = << >>

Begin(t, op, c, i) ==
    /\ call[t] = Idle /\ ncalls < MaxCalls
    /\ op = "dec" => \E m \in made : m.c = c /\ m.i = i
    /\ call' = [call EXCEPT ![t] = [op |-> op, c |-> c, i |-> i, step |-> 1]]
    /\ scratch' = IF Shared \/ Leaky THEN scratch ELSE [scratch EXCEPT ![Area(t, c)] = << >>]
    /\ ncalls' = ncalls + 1
    /\ UNCHANGED <<made, results>>

Step(t) ==
    /\ call[t] # Idle /\ call[t].step <= Steps
    /\ LET a == Area(t, call[t].c) IN
         scratch' = [scratch EXCEPT ![a] = Append(@, <<call[t].c, call[t].i, call[t].step>>)]
    /\ call' = [call EXCEPT ![t].step = @ + 1]
    /\ UNCHANGED <<made, ncalls, results>>

Finish(t) ==
    /\ call[t] # Idle /\ call[t].step = Steps + 1
    /\ LET v == scratch[Area(t, call[t].c)] IN
         /\ made' = IF call[t].op = "enc" THEN made \cup {[c |-> call[t].c, i |-> call[t].i, val |-> v]} ELSE made
         /\ results' = Append(results, [op |-> call[t].op, c |-> call[t].c, i |-> call[t].i, val |-> v])
    /\ call' = [call EXCEPT ![t] = Idle]
    /\ scratch' = IF Shared \/ Leaky THEN [scratch EXCEPT ![Area(t, call[t].c)] = << >>] ELSE scratch
    /\ UNCHANGED ncalls

Fail(t) ==
    /\ call[t] # Idle
    /\ call' = [call EXCEPT ![t] = Idle]
    /\ UNCHANGED <<scratch, made, ncalls, results>>

Next == \E t \in Threads :
            \/ \E op \in {"enc", "dec"}, c \in Codecs, i \in Images : Begin(t, op, c, i)
            \/ Step(t) \/ Finish(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t) \/ Finish(t) \/ Fail(t))

\* Every result is the one of a fresh process
AsFresh == \A n \in 1..Len(results) : results[n].val = Stream(results[n].c, results[n].i)
Unique == \A a, b \in made : a.c = b.c /\ a.i = b.i => a.val = b.val
CallsReturn == \A t \in Threads : call[t] # Idle ~> call[t] = Idle
=============================================================================
