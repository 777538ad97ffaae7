------------------------------- MODULE Session -------------------------------
(* What a user of the codecs sees: images are encoded one after the other into
   a medium (a byte stream), the medium may lose its tail (a crash, a full
   disk), and is decoded from the start.  The contract:
     - an encoding that reports success delivered a complete stream;
     - one whose output failed reports an error and delivered a prefix;
     - a decoder started at the beginning of a complete stream returns the
       encoded image (the same one if the codec is lossless, one of the same
       dimensions otherwise) and consumes exactly this stream;
     - a decoder that meets the end of the medium inside a stream returns no
       image.
   Codec calls have no other state: results do not depend on the history.

   Images are records with (at least) fields w and h; lossless[c] tells whether
   codec c is.  The lengths of the streams are left open. *)
EXTENDS Common

CONSTANTS Codecs, Images, Lossless(_), Dim(_), MaxLen, MaxSegs

VARIABLES
    segs,     \* the streams on the medium: [c, i, len, full]
    pos,      \* decoder: number of streams consumed
    last      \* result of the last call

vars == <<segs, pos, last>>

NoCall == [op |-> "none"]

TypeOK ==
    /\ segs \in Seq([c : Codecs, i : Images, len : Nat, full : BOOLEAN])
    /\ pos \in 0..Len(segs)

Init == segs = << >> /\ pos = 0 /\ last = NoCall

\* Only the last stream of the medium can be incomplete
Writable == IF segs = << >> THEN TRUE ELSE segs[Len(segs)].full

\* Encode image i with codec c on a healthy output; n bytes
Encode(c, i, n) ==
    /\ Writable
    /\ n \in Nat /\ n >= 1
    /\ segs' = Append(segs, [c |-> c, i |-> i, len |-> n, full |-> TRUE])
    /\ last' = [op |-> "encode", out |-> "ok"]
    /\ UNCHANGED pos

\* The output failed after n bytes of the stream
EncodeFails(c, i, n) ==
    /\ Writable
    /\ segs' = Append(segs, [c |-> c, i |-> i, len |-> n, full |-> FALSE])
    /\ last' = [op |-> "encode", out |-> "err"]
    /\ UNCHANGED pos

\* The medium loses the end of its last stream, k bytes of it survive
Truncate(k) ==
    /\ segs # << >>
    /\ LET s == segs[Len(segs)] IN
         /\ k < s.len
         /\ segs' = [segs EXCEPT ![Len(segs)] = [s EXCEPT !.len = k, !.full = FALSE]]
    /\ pos' = Min2(pos, Len(segs) - 1)
    /\ last' = [op |-> "truncate"]

\* What decoding the next stream may return; out is an image or "none"
DecodeResult(s, out) ==
    IF s.full
    THEN /\ out # "none"
         /\ Dim(out) = Dim(s.i)
         /\ Lossless(s.c) => out = s.i
    ELSE out = "none"

\* Decode the next stream with the codec that wrote it
Decode(out) ==
    /\ pos < Len(segs)
    /\ DecodeResult(segs[pos + 1], out)
    /\ pos' = IF out = "none" THEN pos ELSE pos + 1
    /\ last' = [op |-> "decode", out |-> out, seg |-> pos + 1]
    /\ UNCHANGED segs

\* Start again from the beginning of the medium
Rewind == pos' = 0 /\ last' = [op |-> "rewind"] /\ UNCHANGED segs

\* A new medium
Fresh == segs' = << >> /\ pos' = 0 /\ last' = [op |-> "fresh"]

Next ==
    \/ \E c \in Codecs, i \in Images, n \in 1..MaxLen : Len(segs) < MaxSegs /\ Encode(c, i, n)
    \/ \E c \in Codecs, i \in Images, n \in 0..MaxLen - 1 : Len(segs) < MaxSegs /\ EncodeFails(c, i, n)
    \/ \E k \in 0..MaxLen : Truncate(k)
    \/ \E out \in Images \cup {"none"} : Decode(out)
    \/ Rewind
    \/ Fresh

Spec == Init /\ [][Next]_vars

(* The guarantees *)
NoImageFromTruncated ==
    last.op = "decode" /\ last.out # "none" => segs[last.seg].full
LosslessRoundTrip ==
    last.op = "decode" /\ last.out # "none" /\ Lossless(segs[last.seg].c)
        => last.out = segs[last.seg].i
SameDimensions ==
    last.op = "decode" /\ last.out # "none" => Dim(last.out) = Dim(segs[last.seg].i)
OnlyLastIncomplete == \A k \in 1..Len(segs) - 1 : segs[k].full
\* a complete medium is decoded to its end, in order
InOrder == [][last'.op = "decode" /\ last'.out # "none" => pos' = pos + 1 /\ last'.seg = pos']_vars
=============================================================================
