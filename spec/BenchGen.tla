------------------------------ MODULE BenchGen ------------------------------
(* Behaviours of Bench as they are replayed: the plan, and the order in which
   images enter encoding and leave decoding. *)
EXTENDS MCBench, Json
VARIABLES ev
gvars == <<vars, ev>>

GInit ==
    /\ lossless = TRUE /\ plan = << >>
    /\ pc = [t \in 1..Tasks |-> "idle"]
    /\ holder = 0 /\ wrote = FALSE /\ file = << >> /\ errors = {} /\ pics = {} /\ finished = FALSE
    /\ ev = << >>
\* the plan, one task at a time (the set of all of them is large)
Choose ==
    /\ Len(plan) < Tasks
    /\ \E o \in Outcomes : plan' = Append(plan, o)
    /\ IF plan = << >> THEN lossless' \in BOOLEAN ELSE UNCHANGED lossless
    /\ UNCHANGED <<pc, holder, wrote, file, errors, pics, finished, ev>>
GNext == Choose \/
    /\ Len(plan) = Tasks
    /\ Next
    /\ ev' = IF \E t \in 1..Tasks : pc[t] = "encoding" /\ pc'[t] # "encoding"
             THEN Append(ev, <<CHOOSE t \in 1..Tasks : pc[t] = "encoding" /\ pc'[t] # "encoding", "e">>)
             ELSE IF \E t \in 1..Tasks : pc[t] = "decoding" /\ pc'[t] # "decoding"
             THEN Append(ev, <<CHOOSE t \in 1..Tasks : pc[t] = "decoding" /\ pc'[t] # "decoding", "x">>)
             ELSE ev
    /\ (finished' => PrintT("@@" \o ToJson([lossless |-> IF lossless THEN 1 ELSE 0, plan |-> plan, ev |-> ev])))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
