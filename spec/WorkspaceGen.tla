---------------------------- MODULE WorkspaceGen ----------------------------
(* Histories of runs in one directory, printed to be replayed: the outputs that
   are broken, the command lines. Built in small steps, for random walks. *)
EXTENDS Common, Json

CONSTANTS NCodecs, NImages, Runs, MaxList, Variants, MaxBroken

VARIABLES done, cur, bro, stage, emitted
vars == <<done, cur, bro, stage, emitted>>

Fresh == [kind |-> "", c |-> 1, list |-> << >>, v |-> 1, bro |-> << >>]
Init == done = << >> /\ cur = Fresh /\ bro = << >> /\ stage = "kind" /\ emitted = FALSE

Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Has(s, x) == \E k \in 1..Len(s) : s[k] = x

Kind == /\ stage = "kind"
        \* (benchmarks more often)
        /\ \E k \in {"bench", "bench ", "bench  ", "dump", "dump ", "refused"} :
              cur' = [cur EXCEPT !.kind = CASE k \in {"dump", "dump "} -> "dump" [] k = "refused" -> "refused" [] OTHER -> "bench"]
        /\ stage' = "codec" /\ UNCHANGED <<done, bro, emitted>>
Codec == /\ stage = "codec" /\ \E c \in 1..NCodecs, v \in 1..Variants : cur' = [cur EXCEPT !.c = c, !.v = v]
         /\ stage' = "list" /\ UNCHANGED <<done, bro, emitted>>
Add == /\ stage = "list" /\ Len(cur.list) < MaxList
       /\ \E i \in 1..NImages : cur' = [cur EXCEPT !.list = Append(@, i)]
       /\ UNCHANGED <<done, bro, stage, emitted>>
Listed == stage = "list" /\ stage' = "faults" /\ UNCHANGED <<done, cur, bro, emitted>>
\* faults next to what this run writes
Fault == /\ stage = "faults" /\ Len(bro) < MaxBroken
         /\ \E o \in {<<"report", cur.c>>} \cup ({"picture", "dump"} \X { cur.list[k] : k \in 1..Len(cur.list) }) :
               ~Has(bro, o) /\ bro' = Append(bro, o)
         /\ stage' = "go" /\ UNCHANGED <<done, cur, emitted>>
Repair == /\ stage = "faults" /\ \E k \in 1..Len(bro) : bro' = Without(bro, bro[k])
          /\ UNCHANGED <<done, cur, stage, emitted>>
Faultless == stage = "faults" /\ stage' = "go" /\ UNCHANGED <<done, cur, bro, emitted>>
Faultless2 == stage = "faults" /\ bro # << >> /\ bro' = << >> /\ stage' = "go" /\ UNCHANGED <<done, cur, emitted>>
Go == /\ stage = "go" /\ done' = Append(done, [cur EXCEPT !.bro = bro]) /\ cur' = Fresh
      /\ stage' = IF Len(done') = Runs THEN "end" ELSE "kind"
      /\ UNCHANGED <<bro, emitted>>
Emit == stage = "end" /\ ~emitted /\ emitted' = TRUE /\ PrintT("@@" \o ToJson(done)) /\ UNCHANGED <<done, cur, bro, stage>>
Next == Kind \/ Codec \/ Add \/ Listed \/ Fault \/ Repair \/ Faultless \/ Faultless2 \/ Go \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
