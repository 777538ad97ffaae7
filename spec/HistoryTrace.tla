---------------------------- MODULE HistoryTrace ----------------------------
(* Recorded histories of calls on shared codec objects, in order of completion,
   against the results of fresh processes.

   trace = [fresh |-> for each codec, for each image,
                      [len, dig |-> of the stream, img |-> digest, w, h of what it decodes to]
                      (len = 0, dig = "", img = "": not determined by codec and image alone),
            ev |-> <<[op |-> "enc", c, i, len, dig] | [op |-> "dec", c, i, w, h, img]
                   | [op |-> "encx", c, i, out] (the writer broke) | [op |-> "dect", c, i, out] (the stream was cut)>>] *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, k, made
tvars == <<tr, k, made>>
T == Traces[tr]
E == T.ev[k + 1]
F == T.fresh[E.c][E.i]

TInit == tr \in 1..Len(Traces) /\ k = 0 /\ made = {}

Enc ==
    /\ E.op = "enc"
    /\ F.len # 0 => E.len = F.len
    /\ F.dig # "" => E.dig = F.dig
    /\ made' = made \cup {<<E.c, E.i>>}

Dec ==
    /\ E.op = "dec"
    /\ <<E.c, E.i>> \in made
    /\ E.w = F.w /\ E.h = F.h
    /\ F.img # "" => E.img = F.img
    /\ made' = made

\* calls that must fail, and leave nothing behind
Broken == E.op = "encx" /\ E.out = "err" /\ made' = made
Cut == E.op = "dect" /\ <<E.c, E.i>> \in made /\ E.out = "none" /\ made' = made

TNext ==
    \/ k < Len(T.ev) /\ k' = k + 1 /\ tr' = tr /\ (Enc \/ Dec \/ Broken \/ Cut)
    \/ k = Len(T.ev) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
