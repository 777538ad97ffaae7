------------------------------ MODULE RleTrace ------------------------------
(* Streams of the real run-length codec, with the rules of Rle.

   trace = [w, h, px |-> packed pixels in raster order, order |-> the traversal,
            head |-> first 8 bytes, counts, colours |-> the runs of the stream
            (packed colours; -1 where the serialised colour is malformed),
            tail |-> bytes left over, dn, dd |-> the distance,
            dpx |-> decoded pixels in raster order (empty: not checked),
            lo, hi |-> (if present) a distance of many digits: for every number n of
            pixels the integer parts of (n * distance)^2, the distance taken a
            trifle shorter and longer, as pairs in base 2^24; dn, dd are unused,
            free |-> (if present) 1: a stream of any writer of the format, whose
            runs need not be maximal,
            whole |-> (if present) 1: for images of very many pixels, a step of the
            trace is a whole run (TStart, the TJoins and TClose at once)] *)
EXTENDS Rle, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, r

\* p, cnt, sum are those of Rle; r is the number of the running run
tvars == <<p, cnt, sum, tr, r>>
T == Traces[tr]
N == T.w * T.h
Free == IF "free" \in DOMAIN T THEN T.free = 1 ELSE FALSE
Unpack(v) == <<v \div 65536, (v \div 256) % 256, v % 256>>
PixelAt(k) == Unpack(T.px[T.order[k]])

\* With a mean that isn't a dyadic fraction, an exact tie may go either way in
\* floating point
Exactly(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128}
Digits == "lo" \in DOMAIN T
Scaled(x) == SumSqr([c \in 1..3 |-> cnt * x[c] - sum[c]], 3)
MustJoin(x) == IF Digits THEN cnt < Cap /\ CmpBig(Scaled(x), T.lo[cnt]) <= 0 ELSE
               cnt < Cap /\ (Excess(x, sum, cnt, T.dn, T.dd) < 0 \/ (Excess(x, sum, cnt, T.dn, T.dd) = 0 /\ (Exactly(cnt) \/ T.dn = 0)))
MayJoin(x) == IF Digits THEN cnt < Cap /\ CmpBig(Scaled(x), T.hi[cnt]) <= 0 ELSE
              cnt < Cap /\ Excess(x, sum, cnt, T.dn, T.dd) <= 0

TInit == tr \in 1..Len(Traces) /\ p = 0 /\ cnt = 0 /\ sum = << >> /\ r = 0
         /\ pixels = << >> /\ runs = << >> /\ flushed = FALSE

Begin ==
    /\ r = 0
    /\ Len(T.head) = 8 /\ LE32(T.head, 1) = T.w /\ LE32(T.head, 5) = T.h
    /\ Len(T.px) = N /\ Len(T.order) = N /\ T.tail = 0
    /\ Len(T.counts) = Len(T.colours)
    /\ r' = 1 /\ UNCHANGED <<p, cnt, sum>>

Whole == IF "whole" \in DOMAIN T THEN T.whole = 1 ELSE FALSE

TStart ==
    /\ ~Whole
    /\ r >= 1 /\ r <= Len(T.counts) /\ cnt = 0 /\ p < N
    /\ T.counts[r] >= 1
    /\ p' = p + 1 /\ cnt' = 1 /\ sum' = PixelAt(p + 1) /\ r' = r

TJoin ==
    /\ r >= 1 /\ r <= Len(T.counts) /\ cnt > 0 /\ cnt < T.counts[r] /\ p < N
    /\ MayJoin(PixelAt(p + 1))
    /\ p' = p + 1 /\ cnt' = cnt + 1 /\ r' = r
    /\ LET x == PixelAt(p + 1) IN sum' = [c \in 1..3 |-> sum[c] + x[c]]

TClose ==
    /\ r >= 1 /\ r <= Len(T.counts) /\ cnt > 0 /\ cnt = T.counts[r]
    /\ IF p = N \/ Free THEN TRUE ELSE ~MustJoin(PixelAt(p + 1))
    /\ T.colours[r] >= 0 /\ Unpack(T.colours[r]) = RoundedMean(sum, cnt)
    \* the decoder shows the colour of the run
    /\ T.dpx # << >> => \A k \in p - cnt + 1..p : T.dpx[T.order[k]] = T.colours[r]
    /\ cnt' = 0 /\ sum' = << >> /\ r' = r + 1 /\ p' = p

\* The run of n pixels after the first p, checked pixel by pixel: m of them,
\* whose channels add up to s, are seen
RECURSIVE RunIs(_, _, _, _)
PairOk(x, s, m) == m < Cap /\ Excess(x, s, m, T.dn, T.dd) <= 0
MustPair(x, s, m) == m < Cap /\ (Excess(x, s, m, T.dn, T.dd) < 0 \/ (Excess(x, s, m, T.dn, T.dd) = 0 /\ (Exactly(m) \/ T.dn = 0)))
RunIs(n, col, s, m) ==
    IF m < n THEN LET x == PixelAt(p + m + 1) IN
                  PairOk(x, s, m) /\ RunIs(n, col, [c \in 1..3 |-> s[c] + x[c]], m + 1)
    ELSE /\ Unpack(col) = RoundedMean(s, m)
         /\ p + n < N => ~MustPair(PixelAt(p + n + 1), s, m)

TRun ==
    /\ Whole
    /\ r >= 1 /\ r <= Len(T.counts) /\ T.counts[r] >= 1 /\ T.counts[r] <= Cap /\ T.colours[r] >= 0
    /\ LET n == T.counts[r] IN
         /\ p + n <= N
         /\ IF T.dn = 0
            \* exact: all the pixels are the run's, the next one isn't
            THEN /\ \A k \in p + 1..p + n : T.px[T.order[k]] = T.colours[r]
                 /\ n < Cap /\ p + n < N => T.px[T.order[p + n + 1]] # T.colours[r]
            ELSE RunIs(n, T.colours[r], PixelAt(p + 1), 1)
         /\ T.dpx # << >> => \A k \in p + 1..p + n : T.dpx[T.order[k]] = T.colours[r]
         /\ p' = p + n
    /\ r' = r + 1 /\ UNCHANGED <<cnt, sum>>

TEnd == r = Len(T.counts) + 1 /\ p = N /\ cnt = 0 /\ r' = -1 /\ UNCHANGED <<p, cnt, sum>>

TNext ==
    \/ (Begin \/ TStart \/ TJoin \/ TClose \/ TRun \/ TEnd) /\ tr' = tr /\ UNCHANGED <<pixels, runs, flushed>>
    \/ r = -1 /\ UNCHANGED <<vars, tvars>>
TSpec == TInit /\ [][TNext]_<<vars, tvars>>
TView == <<tr, r, p, cnt>>
=============================================================================
