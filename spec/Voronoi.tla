------------------------------- MODULE Voronoi -------------------------------
(* The Voronoi codec: the pixels, as points of position and colour, are split
   into groups; each group becomes a seed with the mean position and colour
   (rounded down; an empty group gets some pixel as it is); every pixel is
   then painted with the colour of the first nearest seed.

   Images are w x h with colours of one channel (more channels behave alike). *)
EXTENDS Common

CONSTANTS MaxW, MaxH, Levels, MaxSeeds

VARIABLES
    w, h, img,   \* img[i]: level of pixel i, raster order from 1
    n,           \* groups asked for
    group,       \* group[i]
    seeds,       \* << [x, y, c] ... >>
    painted

vars == <<w, h, img, n, group, seeds, painted>>

N == w * h
X(i) == (i - 1) % w
Y(i) == (i - 1) \div w
K == Min2(n, N)

MeanSeed(S) ==
    [x |-> SumFun([i \in S |-> X(i)], S) \div Cardinality(S),
     y |-> SumFun([i \in S |-> Y(i)], S) \div Cardinality(S),
     c |-> SumFun([i \in S |-> img[i]], S) \div Cardinality(S)]
PixelSeed(i) == [x |-> X(i), y |-> Y(i), c |-> img[i]]

Init ==
    /\ w \in 1..MaxW /\ h \in 1..MaxH
    /\ img \in [1..w * h -> 0..Levels - 1]
    /\ n \in 1..MaxSeeds
    /\ group = << >> /\ seeds = << >> /\ painted = << >>

Split ==
    /\ group = << >>
    /\ \E f \in [1..N -> 1..K] :
         /\ K = N => \A i, j \in 1..N : i < j => f[i] # f[j]
         /\ group' = f
    /\ UNCHANGED <<w, h, img, n, seeds, painted>>

Members(g) == { i \in 1..N : group[i] = g }
Encode ==
    /\ group # << >> /\ seeds = << >>
    /\ \E steal \in 1..N :
        seeds' = [g \in 1..K |-> IF Members(g) = {} THEN PixelSeed(steal) ELSE MeanSeed(Members(g))]
    /\ UNCHANGED <<w, h, img, n, group, painted>>

Dist(s, i) == SqrInt(s.x - X(i)) + SqrInt(s.y - Y(i))
Nearest(ss, i) == { a \in 1..Len(ss) : \A b \in 1..Len(ss) : Dist(ss[a], i) <= Dist(ss[b], i) }
First(S) == CHOOSE a \in S : \A b \in S : a <= b
Paint ==
    /\ seeds # << >> /\ painted = << >>
    /\ painted' = [i \in 1..N |-> seeds[First(Nearest(seeds, i))].c]
    /\ UNCHANGED <<w, h, img, n, group, seeds>>

Next == Split \/ Encode \/ Paint
Spec == Init /\ [][Next]_vars

(* The guarantees *)
Coded == seeds # << >>
Bounded == Coded =>
    /\ Len(seeds) = K
    /\ \A a \in 1..K :
        /\ seeds[a].x \in 0..w - 1 /\ seeds[a].y \in 0..h - 1
        /\ \E i \in 1..N : img[i] <= seeds[a].c
        /\ \E i \in 1..N : img[i] >= seeds[a].c
SingleSeed == Coded /\ n = 1 => seeds = << MeanSeed(1..N) >>
ExactWhenEnough == painted # << >> /\ n >= N => painted = img
\* only colours of seeds are shown
FromSeeds == painted # << >> => \A i \in 1..N : \E a \in 1..K : painted[i] = seeds[a].c
==============================================================================
