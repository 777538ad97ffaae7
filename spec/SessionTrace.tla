---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories of real codec calls, checked against Session.

   trace = [ll |-> <<lossless(1/0) of codec 1, ...>>,
            imgs |-> << [w, h, px], ... >>,          distinct images
            ev |-> << [op |-> "enc", c, i, n]        an encoding that succeeded, n bytes
                      [op |-> "encfail", c, i, n]    its output failed after n bytes
                      [op |-> "trunc", k]            the last stream loses all but k bytes
                      [op |-> "dec", out, used]      image number or 0; bytes consumed
                      [op |-> "rewind"] [op |-> "fresh"] >>]
   An event that Session does not allow leaves the trace unfinished: deadlock. *)
EXTENDS Session, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, k

tvars == <<segs, pos, last, tr, k>>

T == Traces[tr]

\* parameters of Session: codecs and images are numbers within the trace
TCodecs == Nat
TImages == Nat
TLossless(c) == T.ll[c] = 1
TDim(i) == <<T.imgs[i].w, T.imgs[i].h>>

\* Equal numbers mean equal pixels and conversely
ImagesDistinct == \A a, b \in 1..Len(T.imgs) : a < b => T.imgs[a] # T.imgs[b]

TInit == Init /\ tr \in 1..Len(Traces) /\ k = 0 /\ ImagesDistinct

DecodeImage(e) ==
    /\ e.out > 0
    /\ pos < Len(segs)
    /\ LET s == segs[pos + 1] IN
         /\ s.full
         /\ TDim(e.out) = TDim(s.i)
         /\ TLossless(s.c) => e.out = s.i
         /\ "ref" \in DOMAIN e => e.out = e.ref
         /\ e.used = s.len                     \* exactly this stream was consumed
    /\ pos' = pos + 1
    /\ last' = [op |-> "decode", out |-> e.out, seg |-> pos + 1]
    /\ UNCHANGED segs

DecodeNothing(e) == e.out = 0 /\ Decode("none")

\* A success means that the output took everything, an error that it didn't
Faults(e, default) == IF "faults" \in DOMAIN e THEN e.faults ELSE default

Event(e) ==
    CASE e.op = "enc" -> Faults(e, 0) = 0 /\ Encode(e.c, e.i, e.n)
      [] e.op = "encfail" -> Faults(e, 1) > 0 /\ EncodeFails(e.c, e.i, e.n)
      [] e.op = "trunc" -> Truncate(e.k)
      [] e.op = "dec" -> IF e.out > 0 THEN DecodeImage(e) ELSE DecodeNothing(e)
      [] e.op = "rewind" -> Rewind
      [] e.op = "fresh" -> Fresh
      [] OTHER -> FALSE

TNext ==
    \/ /\ k < Len(T.ev)
       /\ k' = k + 1 /\ tr' = tr
       /\ Event(T.ev[k + 1])
    \/ k = Len(T.ev) /\ UNCHANGED tvars

TSpec == TInit /\ [][TNext]_tvars

\* Session's own guarantees, in trace terms (they hold by construction of the actions)
TNoImageFromTruncated ==
    IF last.op # "decode" THEN TRUE
    ELSE IF last.out = "none" THEN TRUE ELSE segs[last.seg].full
=============================================================================
