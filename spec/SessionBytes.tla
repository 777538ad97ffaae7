---------------------------- MODULE SessionBytes ----------------------------
(* The byte-by-byte mechanism behind Session: an encoder hands bytes to a
   writer through write_all, i.e. it retries short and interrupted writes and
   gives up on an error; a decoder pulls bytes one at a time, knows from the
   bytes alone where its stream ends, and gives up when the input ends.
   TLC checks that this refines Session. *)
EXTENDS Common

CONSTANTS Codecs, Images, MaxLen, MaxSegs, Lossless(_), Dim(_)

VARIABLES
    media,    \* bytes delivered: sequence of <<codec, image, k, total>>
    enc,      \* running encoder: [c, i, k, n] or Idle
    dec,      \* running decoder: [k, from] or Idle (k bytes consumed)
    rd,       \* next byte to be read
    full,     \* the streams delivered so far (history)
    pos, last

bvars == <<media, enc, dec, rd, full, pos, last>>

Idle == [idle |-> TRUE]
Busy(x) == "k" \in DOMAIN x

Init ==
    /\ media = << >> /\ enc = Idle /\ dec = Idle /\ rd = 1 /\ full = << >>
    /\ pos = 0 /\ last = [op |-> "none"]

Ready == IF full = << >> THEN TRUE ELSE full[Len(full)].full

Start ==
    /\ ~Busy(enc) /\ ~Busy(dec) /\ Len(full) < MaxSegs /\ Ready
    /\ \E c \in Codecs, i \in Images, n \in 1..MaxLen :
          enc' = [c |-> c, i |-> i, k |-> 0, n |-> n]
    /\ UNCHANGED <<media, dec, rd, full, pos, last>>

\* The writer takes m >= 1 of the remaining bytes (a short write); an
\* interrupted write takes none and is simply tried again (stuttering)
Write ==
    /\ Busy(enc) /\ enc.k < enc.n
    /\ \E m \in 1..(enc.n - enc.k) :
          /\ media' = media \o [j \in 1..m |-> <<enc.c, enc.i, enc.k + j, enc.n>>]
          /\ enc' = [enc EXCEPT !.k = @ + m]
    /\ UNCHANGED <<dec, rd, full, pos, last>>

Finish ==
    /\ Busy(enc) /\ enc.k = enc.n
    /\ enc' = Idle
    /\ full' = Append(full, [c |-> enc.c, i |-> enc.i, len |-> enc.n, full |-> TRUE])
    /\ last' = [op |-> "encode", out |-> "ok"]
    /\ UNCHANGED <<media, dec, rd, pos>>

WriterError ==
    /\ Busy(enc) /\ enc.k < enc.n
    /\ enc' = Idle
    /\ full' = Append(full, [c |-> enc.c, i |-> enc.i, len |-> enc.k, full |-> FALSE])
    /\ last' = [op |-> "encode", out |-> "err"]
    /\ UNCHANGED <<media, dec, rd, pos>>

Crash ==
    /\ ~Busy(enc) /\ ~Busy(dec) /\ full # << >> /\ full[Len(full)].len > 0
    /\ LET s == full[Len(full)] IN \E k \in 0..s.len - 1 :
          /\ media' = SubSeq(media, 1, Len(media) - (s.len - k))
          /\ full' = [full EXCEPT ![Len(full)] = [s EXCEPT !.len = k, !.full = FALSE]]
    /\ pos' = Min2(pos, Len(full) - 1)
    /\ rd' = IF pos = Len(full) THEN rd - full[Len(full)].len ELSE rd
    /\ last' = [op |-> "truncate"]
    /\ UNCHANGED <<enc, dec>>

StartDec ==
    /\ ~Busy(enc) /\ ~Busy(dec) /\ pos < Len(full)
    /\ dec' = [k |-> 0, from |-> rd]
    /\ UNCHANGED <<media, enc, rd, full, pos, last>>

Pull ==
    /\ Busy(dec) /\ rd <= Len(media)
    /\ IF dec.k = 0 THEN TRUE ELSE media[rd - 1][3] # media[rd - 1][4]     \* the stream is not over
    /\ media[rd][3] = dec.k + 1
    /\ dec' = [dec EXCEPT !.k = @ + 1]
    /\ rd' = rd + 1
    /\ UNCHANGED <<media, enc, full, pos, last>>

DecOk ==
    /\ Busy(dec) /\ dec.k > 0 /\ media[rd - 1][3] = media[rd - 1][4]
    /\ LET i == media[rd - 1][2] IN
       \E out \in Images :
         /\ IF Lossless(media[rd - 1][1]) THEN out = i ELSE Dim(out) = Dim(i)
         /\ last' = [op |-> "decode", out |-> out, seg |-> pos + 1]
    /\ pos' = pos + 1
    /\ dec' = Idle
    /\ UNCHANGED <<media, enc, rd, full>>

DecEof ==
    /\ Busy(dec) /\ rd > Len(media)
    /\ IF dec.k > 0 THEN media[rd - 1][3] # media[rd - 1][4] ELSE TRUE
    /\ last' = [op |-> "decode", out |-> "none", seg |-> pos + 1]
    /\ rd' = dec.from
    /\ dec' = Idle
    /\ UNCHANGED <<media, enc, full, pos>>

Next == Start \/ Write \/ Finish \/ WriterError \/ Crash \/ StartDec \/ Pull \/ DecOk \/ DecEof

Spec == Init /\ [][Next]_bvars /\ WF_bvars(Write \/ Finish \/ WriterError) /\ WF_bvars(Pull \/ DecOk \/ DecEof)

\* Refinement
S == INSTANCE Session WITH segs <- full, pos <- pos, last <- last
Refines == S!Init /\ [][S!Next]_<<full, pos, last>>

\* Every call returns
Terminates == (Busy(enc) ~> ~Busy(enc)) /\ (Busy(dec) ~> ~Busy(dec))
=============================================================================
