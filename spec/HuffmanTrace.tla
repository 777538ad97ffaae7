---------------------------- MODULE HuffmanTrace ----------------------------
(* Streams written by the real hufman, cluster-colors and delta codecs, read
   with the machine of Huffman.tla.

   trace = [kind |-> "rgb" | "delta", w, h, px |-> packed pixels in raster order,
            order |-> raster index (from 1) of the k-th pixel of the traversal (delta),
            bytes |-> the stream,
            idx |-> number of the leaf of the k-th symbol of the message,
            cnt |-> number of occurrences of each leaf's symbol,
            asc |-> the leaves by ascending cnt,
            free |-> (if present) 1: a stream of any writer of the format: symbols may
            be unused, and the code need not be the best,
            total |-> (if present) number of bytes of the stream: bytes is only its
            beginning, px and idx are left out, cnt are the true numbers of
            occurrences, and the payload isn't read but for its length]
   idx, cnt and asc are only hints: everything they claim is verified. *)
EXTENDS Huffman, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, rem, q, qi, qj, cost, stage, step

tvars == <<at, path, syms, codes, phase, bit, out, tr, rem, q, qi, qj, cost, stage, step>>

T == Traces[tr]
Free == IF "free" \in DOMAIN T THEN T.free = 1 ELSE FALSE
Weighed == "total" \in DOMAIN T
Byte(p) == IF p <= Len(T.bytes) THEN T.bytes[p] ELSE -1

TTagAt(p) == Byte(p)
TLeafLen(p) == IF T.kind = "rgb" THEN 11 ELSE 6

\* The symbols as numbers: a colour, or a difference of colours, per channel from -255 to 255
PackRgb(r, g, b) == r * 65536 + g * 256 + b
PackDiff(r, g, b) == ((r + 255) * 511 + (g + 255)) * 511 + (b + 255)
TSymAt(p) ==
    IF p + TLeafLen(p) - 1 > Len(T.bytes) THEN -1
    ELSE IF T.kind = "rgb"
    THEN IF \A j \in 0..7 : T.bytes[p + j] = (IF j = 0 THEN 3 ELSE 0)
         THEN PackRgb(T.bytes[p + 8], T.bytes[p + 9], T.bytes[p + 10])
         ELSE -2
    ELSE LET r == SLE16(T.bytes, p) g == SLE16(T.bytes, p + 2) b == SLE16(T.bytes, p + 4)
         IN IF \A v \in {r, g, b} : -255 <= v /\ v <= 255 THEN PackDiff(r, g, b) ELSE -2
TBitAt(a, b) == LET y == Byte(a + (b \div 8)) IN IF y < 0 THEN -1 ELSE Bit(y, b % 8)

\* The message
RedOf(v) == v \div 65536
GreenOf(v) == (v \div 256) % 256
BlueOf(v) == v % 256
Message(n) ==
    IF T.kind = "rgb" THEN T.px[n]
    ELSE LET c == T.px[T.order[n]]
             p == IF n = 1 THEN 0 ELSE T.px[T.order[n - 1]]
         IN PackDiff(RedOf(c) - RedOf(p), GreenOf(c) - GreenOf(p), BlueOf(c) - BlueOf(p))

N == T.w * T.h

TInit ==
    /\ tr \in 1..Len(Traces)
    /\ HInit(9)
    /\ rem = T.cnt /\ q = << >> /\ qi = 1 /\ qj = 1 /\ cost = 0
    /\ stage = "head" /\ step = 0

Header ==
    /\ stage = "head"
    /\ Len(T.bytes) >= 8
    /\ LE32(T.bytes, 1) = T.w /\ LE32(T.bytes, 5) = T.h
    /\ Weighed \/ Len(T.px) = N
    /\ stage' = "read"
    /\ UNCHANGED <<hvars, rem, q, qi, qj, cost>>

TReadLeaf == TSymAt(at + 1) >= 0 /\ ReadLeaf

Tree ==
    /\ stage = "read"
    /\ (ReadBranch \/ TReadLeaf)
    /\ UNCHANGED <<rem, q, qi, qj, cost, stage>>

Symbol ==
    /\ stage = "read" /\ phase = "payload" /\ ~Weighed /\ out < N
    /\ LET x == T.idx[out + 1] IN
         /\ ReadSymbol(x)
         /\ syms[x] = Message(out + 1)
         /\ rem[x] > 0
         /\ rem' = [rem EXCEPT ![x] = @ - 1]
    /\ UNCHANGED <<q, qi, qj, cost, stage>>

\* The counts were right, the stream ends here, padded with zeros
End ==
    /\ stage = "read" /\ phase = "payload" /\ out = N
    /\ Len(rem) = Len(syms)
    /\ Holds(\A x \in 1..Len(rem) : rem[x] = 0 /\ (Free \/ T.cnt[x] > 0))
    /\ Cardinality({syms[x] : x \in 1..Len(syms)}) = Len(syms)
    /\ Len(T.bytes) = at - 1 + ((bit + 7) \div 8)
    /\ \A b \in bit..8 * ((bit + 7) \div 8) - 1 : TBitAt(at, b) = 0
    /\ Len(T.asc) = Len(syms)
    /\ {T.asc[x] : x \in 1..Len(T.asc)} = 1..Len(syms)
    /\ \A x \in 1..Len(T.asc) - 1 : T.cnt[T.asc[x]] <= T.cnt[T.asc[x + 1]]
    /\ stage' = "merge"
    /\ UNCHANGED <<hvars, rem, q, qi, qj, cost>>

\* The length of the payload is that of the codes of all the occurrences
RECURSIVE Cost(_)
Cost(x) == IF x = 0 THEN 0 ELSE Cost(x - 1) + T.cnt[x] * Len(codes[x])
RECURSIVE Occurrences(_)
Occurrences(x) == IF x = 0 THEN 0 ELSE Occurrences(x - 1) + T.cnt[x]

Weigh ==
    /\ stage = "read" /\ phase = "payload" /\ Weighed
    /\ Len(T.cnt) = Len(syms) /\ Occurrences(Len(syms)) = N
    /\ \A x \in 1..Len(T.cnt) : T.cnt[x] > 0
    /\ Cardinality({syms[x] : x \in 1..Len(syms)}) = Len(syms)
    /\ T.total = at - 1 + ((Cost(Len(syms)) + 7) \div 8)
    /\ {T.asc[x] : x \in 1..Len(T.asc)} = 1..Len(syms) /\ Len(T.asc) = Len(syms)
    /\ \A x \in 1..Len(T.asc) - 1 : T.cnt[T.asc[x]] <= T.cnt[T.asc[x + 1]]
    /\ bit' = Cost(Len(syms))
    /\ stage' = "merge"
    /\ UNCHANGED <<at, path, syms, codes, phase, out, rem, q, qi, qj, cost>>

Ws == [x \in 1..Len(T.asc) |-> T.cnt[T.asc[x]]]
WLeft == (Len(T.asc) - qi + 1) + (Len(q) - qj + 1)
HeadLeaf(i, j) == IF j > Len(q) THEN TRUE ELSE IF i > Len(T.asc) THEN FALSE ELSE T.cnt[T.asc[i]] <= q[j]
Weight(i, j) == IF HeadLeaf(i, j) THEN T.cnt[T.asc[i]] ELSE q[j]

\* One step of OptCost
Merge ==
    /\ stage = "merge" /\ WLeft >= 2
    /\ LET a == Weight(qi, qj)
           i1 == IF HeadLeaf(qi, qj) THEN qi + 1 ELSE qi
           j1 == IF HeadLeaf(qi, qj) THEN qj ELSE qj + 1
           b == Weight(i1, j1)
           i2 == IF HeadLeaf(i1, j1) THEN i1 + 1 ELSE i1
           j2 == IF HeadLeaf(i1, j1) THEN j1 ELSE j1 + 1
       IN /\ q' = Append(q, a + b) /\ qi' = i2 /\ qj' = j2 /\ cost' = cost + a + b
    /\ UNCHANGED <<hvars, rem, stage>>

Optimal ==
    /\ stage = "merge" /\ WLeft < 2
    /\ Holds(Free \/ bit = cost)
    /\ stage' = "done"
    /\ UNCHANGED <<hvars, rem, q, qi, qj, cost>>

TNext ==
    \/ (Header \/ Tree \/ Symbol \/ Weigh \/ End \/ Merge \/ Optimal) /\ tr' = tr /\ step' = step + 1
    \/ stage = "done" /\ UNCHANGED tvars

TSpec == TInit /\ [][TNext]_tvars
\* a trace has at most one behaviour
TView == <<tr, step>>
\* what is shown of a state when a trace is rejected
TShown == [tr |-> tr, step |-> step, stage |-> stage, phase |-> phase, at |-> at, bit |-> bit, out |-> out, leaves |-> Len(syms), cost |-> cost]
=============================================================================
