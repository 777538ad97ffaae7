---------------------------- MODULE VoronoiTrace ----------------------------
(* Streams and pictures of the real Voronoi codec.

   trace = [mode |-> "rt": an image encoded and decoded; "dec": a stream decoded,
            n, w, h, dw, dh, px |-> packed pixels ("rt"),
            dpx |-> packed decoded pixels, at |-> the raster indices they are
            of (from 1; empty: all), opx |-> when at isn't empty, the original pixels there,
            count, tail |-> number of seeds announced, bytes left over,
            seeds |-> << [x, y, c |-> packed] >>,
            who |-> for each of dpx, the seed (from 1) it is said to come from,
            mean |-> <<x, y, r, g, b>>, the means over the pixels rounded down ("rt" and n = 1),
            lo, hi |-> least and greatest value of each channel ("rt")] *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, p,
    sum, lo, hi      \* of x, y and the channels over the pixels seen so far
vars == <<tr, p, sum, lo, hi>>

T == Traces[tr]
N == T.w * T.h
S == T.seeds
All == T.at = << >>
Index(j) == IF All THEN j ELSE T.at[j]
X(i) == (i - 1) % T.w
Y(i) == (i - 1) \div T.w
Chan(v, ch) == IF ch = 1 THEN v \div 65536 ELSE IF ch = 2 THEN (v \div 256) % 256 ELSE v % 256

\* On a line of pixels (with seeds on it) the distance does as well as its square
Dist(s, i) == IF T.h = 1 \/ T.w = 1 THEN Abs(s.x - X(i)) + Abs(s.y - Y(i))
              ELSE SqrInt(s.x - X(i)) + SqrInt(s.y - Y(i))

Channels(v) == <<v \div 65536, (v \div 256) % 256, v % 256>>

TInit ==
    /\ tr \in 1..Len(Traces) /\ p = -2
    /\ sum = <<0, 0, 0, 0, 0>> /\ lo = <<255, 255, 255>> /\ hi = <<0, 0, 0>>

\* The hints about the picture, where it is there to be looked at
Look ==
    /\ p < -1 /\ T.mode = "rt" /\ All
    /\ LET i == -1 - p IN
       IF i <= N
       THEN LET c == Channels(T.px[i]) IN
            /\ p' = p - 1
            /\ sum' = <<sum[1] + X(i), sum[2] + Y(i), sum[3] + c[1], sum[4] + c[2], sum[5] + c[3]>>
            /\ lo' = [ch \in 1..3 |-> Min2(lo[ch], c[ch])]
            /\ hi' = [ch \in 1..3 |-> Max2(hi[ch], c[ch])]
       ELSE /\ T.lo = lo /\ T.hi = hi /\ T.mean = [k \in 1..5 |-> sum[k] \div N]
            /\ p' = -1 /\ UNCHANGED <<sum, lo, hi>>
    /\ tr' = tr
NoLook ==
    /\ p = -2 /\ ~(T.mode = "rt" /\ All)
    /\ p' = -1 /\ UNCHANGED <<tr, sum, lo, hi>>

Begin ==
    /\ p = -1
    /\ T.dw = T.w /\ T.dh = T.h
    /\ Len(T.dpx) = IF All THEN N ELSE Len(T.at)
    /\ T.tail = 0 /\ T.count = Len(S)
    /\ T.mode = "rt" =>
         /\ Len(S) = Min2(T.n, N)
         /\ \A a \in 1..Len(S) :
              /\ S[a].x < T.w /\ S[a].y < T.h /\ S[a].x >= 0 /\ S[a].y >= 0
              /\ \A ch \in 1..3 : T.lo[ch] <= Chan(S[a].c, ch) /\ Chan(S[a].c, ch) <= T.hi[ch]
         /\ T.n = 1 =>
              <<S[1].x, S[1].y, Chan(S[1].c, 1), Chan(S[1].c, 2), Chan(S[1].c, 3)>> = T.mean
         /\ T.n >= N =>
              IF All THEN T.dpx = T.px ELSE T.dpx = T.opx
    /\ p' = 0 /\ UNCHANGED <<tr, sum, lo, hi>>

\* a pixel has the colour of the first nearest seed
Pixel(j) ==
    LET ss == S
        a == T.who[j]
        i == Index(j)
        d == Dist(ss[a], i)
    IN
    /\ T.dpx[j] = ss[a].c
    /\ \A b \in 1..Len(ss) : IF b < a THEN Dist(ss[b], i) > d ELSE Dist(ss[b], i) >= d

Batch == 64
Paint ==
    /\ p >= 0 /\ p < Len(T.dpx)
    /\ Holds(\A j \in p + 1..Min2(p + Batch, Len(T.dpx)) : Pixel(j))
    /\ p' = Min2(p + Batch, Len(T.dpx)) /\ UNCHANGED <<tr, sum, lo, hi>>

End == p >= 0 /\ p = Len(T.dpx) /\ UNCHANGED vars
TNext == Look \/ NoLook \/ Begin \/ Paint \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
