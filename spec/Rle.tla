--------------------------------- MODULE Rle ---------------------------------
(* Run-length coding with a tolerance.  Pixels are tuples of channels.  A run is
   described by its number of pixels and the sums of their channels; a pixel at
   distance at most Dist (a fraction DistNum/DistDen) from the mean joins it
   while it has fewer than Cap pixels.  With DistNum = 0 this is exact coding:
   the mean of equal pixels is their colour, and only that is at distance 0. *)
EXTENDS Common

CONSTANTS Cap, DistNum, DistDen

VARIABLES
    pixels,    \* what is coded
    p,         \* pixels consumed
    cnt, sum,  \* running run (cnt = 0: none)
    runs,      \* runs emitted: <<count, colour>>
    flushed

vars == <<pixels, p, cnt, sum, runs, flushed>>

Channels(x) == 1..Len(x)

(* Comparing sums of squares beyond 32 bits: a nonnegative number is the pair
   <<high, low>> in base 2^24; squares of numbers below 2^23. *)
B24 == 16777216
Big(h, l) == <<h + (l \div B24), l % B24>>
SqrBig(a) == LET a1 == a \div 4096 a0 == a % 4096 m == 2 * a1 * a0
             IN Big(a1 * a1 + (m \div 4096), (m % 4096) * 4096 + a0 * a0)
AddBig(x, y) == Big(x[1] + y[1], x[2] + y[2])
CmpBig(x, y) == IF x[1] # y[1] THEN x[1] - y[1] ELSE x[2] - y[2]

RECURSIVE SumSqr(_, _)
SumSqr(v, n) == IF n = 0 THEN <<0, 0>> ELSE AddBig(SumSqr(v, n - 1), SqrBig(Abs(v[n])))

\* sign of (distance of x to the mean of n pixels of sum s)^2 - Dist^2, scaled
Excess(x, s, n, dn, dd) ==
    LET v == [c \in Channels(x) |-> dd * (n * x[c] - s[c])]
    IN IF \E c \in Channels(x) : Abs(v[c]) > dn * n THEN 1       \* (also keeps the squares small)
       ELSE CmpBig(SumSqr(v, Len(v)), SqrBig(dn * n))

Joins(x, s, n, dn, dd) == n < Cap /\ Excess(x, s, n, dn, dd) <= 0

\* rounding half away from zero
RoundedMean(s, n) == [c \in Channels(s) |-> (2 * s[c] + n) \div (2 * n)]

Init(inputs) ==
    /\ pixels \in inputs
    /\ p = 0 /\ cnt = 0 /\ sum = << >> /\ runs = << >> /\ flushed = FALSE

Start ==
    /\ cnt = 0 /\ p < Len(pixels)
    /\ p' = p + 1 /\ cnt' = 1 /\ sum' = pixels[p + 1]
    /\ UNCHANGED <<pixels, runs, flushed>>

Join ==
    /\ cnt > 0 /\ p < Len(pixels)
    /\ Joins(pixels[p + 1], sum, cnt, DistNum, DistDen)
    /\ p' = p + 1 /\ cnt' = cnt + 1
    /\ sum' = [c \in Channels(sum) |-> sum[c] + pixels[p + 1][c]]
    /\ UNCHANGED <<pixels, runs, flushed>>

Close ==
    /\ cnt > 0
    /\ IF p = Len(pixels) THEN TRUE ELSE ~Joins(pixels[p + 1], sum, cnt, DistNum, DistDen)
    /\ runs' = Append(runs, <<cnt, RoundedMean(sum, cnt)>>)
    /\ cnt' = 0 /\ sum' = << >>
    /\ UNCHANGED <<pixels, p, flushed>>

End == cnt = 0 /\ p = Len(pixels) /\ ~flushed /\ flushed' = TRUE /\ UNCHANGED <<pixels, p, cnt, sum, runs>>

Next == Start \/ Join \/ Close \/ End

RECURSIVE Expand(_)
Expand(r) == IF r = << >> THEN << >> ELSE [j \in 1..Head(r)[1] |-> Head(r)[2]] \o Expand(Tail(r))

NothingLost == Len(Expand(runs)) + cnt = p
CountsInRange == \A j \in 1..Len(runs) : 1 <= runs[j][1] /\ runs[j][1] <= Cap
ExactRoundTrip == flushed /\ DistNum = 0 => Expand(runs) = pixels
ExactMaximal == DistNum = 0 =>
    \A j \in 1..Len(runs) - 1 : runs[j][2] = runs[j + 1][2] => runs[j][1] = Cap
\* every pixel is within Dist + the drift of the mean of what is shown for it
ColoursInRange ==
    \A j \in 1..Len(runs) : \A c \in Channels(runs[j][2]) :
        /\ \E i \in 1..Len(pixels) : pixels[i][c] <= runs[j][2][c]
        /\ \E i \in 1..Len(pixels) : pixels[i][c] >= runs[j][2][c]
=============================================================================
