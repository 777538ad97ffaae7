----------------------------- MODULE KMeansTrace -----------------------------
(* Clusterings of the real code, checked against what KMeans guarantees.

   trace = [pts |-> the points, distinct tuples of naturals, n |-> groups asked
            for, rounded |-> 1 if the mean is rounded down, groups |->
            << [c |-> the centre times 1000, rounded, m |-> indices] ... >>]
   A group at a time; then the groups as a whole; a pair of groups that isn't
   settled must come from a run that never settles. *)
EXTENDS Common, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, g, seen, stage, asg, cc, laps
vars == <<tr, g, seen, stage, asg, cc, laps>>

T == Traces[tr]
P == T.pts
N == Len(P)
K == Min2(T.n, N)
G == T.groups
Dims == 1..Len(P[1])
Laps == 30

Members(h) == { G[h].m[j] : j \in 1..Len(G[h].m) }

RECURSIVE SumBetween(_, _, _, _)
\* by halves: groups can be large
SumBetween(m, d, i, j) ==
    IF i > j THEN 0 ELSE IF i = j THEN P[m[i]][d]
    ELSE LET h == (i + j) \div 2 IN SumBetween(m, d, i, h) + SumBetween(m, d, h + 1, j)
SumOver(m, d) == SumBetween(m, d, 1, Len(m))

MeanOK(h) ==
    LET m == G[h].m IN
    \A d \in Dims :
        LET s == SumOver(m, d) IN
        IF T.rounded = 1 THEN G[h].c[d] = 1000 * (s \div Len(m))
        \* in thousandths, rounded
        ELSE Abs(2 * (G[h].c[d] * Len(m) - 1000 * s)) <= Len(m) + 2

TInit ==
    /\ tr \in 1..Len(Traces) /\ g = 1 /\ seen = {} /\ stage = "groups"
    /\ asg = << >> /\ cc = << >> /\ laps = 0

\* one more group: none of its points was in another one
Group ==
    /\ stage = "groups" /\ g <= Len(G)
    /\ Len(G) = K
    /\ Cardinality(Members(g)) = Len(G[g].m)
    /\ Members(g) \cap seen = {}
    /\ Members(g) \subseteq 1..N
    /\ Len(G[g].m) > 0 /\ Len(G[g].c) = Len(P[1]) /\ MeanOK(g)
    /\ T.n >= N => Len(G[g].m) = 1
    /\ seen' = seen \cup Members(g) /\ g' = g + 1
    /\ UNCHANGED <<tr, stage, asg, cc, laps>>

(* the pair of groups *)
Chunk1 == { i \in 1..N : i > N - (N \div 2) }
HasMoved == Members(1) # Chunk1
Sq(x) == x * x
RECURSIVE SumSq(_, _)
SumSq(f, d) == IF d = 0 THEN 0 ELSE Sq(f[d]) + SumSq(f, d - 1)

\* point i, of a group of la points that add up to sa, is strictly closer to the
\* centre of another one
Misplaced(i, sa, la, sb, lb) ==
    IF T.rounded = 1
    THEN SumSq([d \in Dims |-> P[i][d] - (sb[d] \div lb)], Len(P[1])) < SumSq([d \in Dims |-> P[i][d] - (sa[d] \div la)], Len(P[1]))
    ELSE SumSq([d \in Dims |-> (P[i][d] * lb - sb[d]) * la], Len(P[1])) < SumSq([d \in Dims |-> (P[i][d] * la - sa[d]) * lb], Len(P[1]))

Settled ==
    IF K # 2 \/ ~HasMoved THEN TRUE
    ELSE LET s1 == TLCEval([d \in Dims |-> SumOver(G[1].m, d)])
             s2 == TLCEval([d \in Dims |-> SumOver(G[2].m, d)])
             l1 == Len(G[1].m)
             l2 == Len(G[2].m)
         IN /\ \A j \in 1..l1 : ~Misplaced(G[1].m[j], s1, l1, s2, l2)
            /\ \A j \in 1..l2 : ~Misplaced(G[2].m[j], s2, l2, s1, l1)

Judge ==
    /\ stage = "groups" /\ g = Len(G) + 1
    /\ seen = 1..N /\ Len(G) = K
    /\ IF Settled
       THEN stage' = "end" /\ UNCHANGED <<asg, cc>>
       ELSE \* it must be that the run revolves: start it again
            /\ T.rounded = 1
            /\ stage' = "revolve"
            /\ asg' = [i \in 1..N |-> IF i \in Chunk1 THEN 1 ELSE 2]
            /\ cc' = << P[N - (N \div 2) + 1], P[1] >>
    /\ UNCHANGED <<tr, g, seen, laps>>

Dist(x, y) == SumSq([d \in Dims |-> x[d] - y[d]], Len(P[1]))
NewGroup(i) == IF Dist(P[i], cc[3 - asg[i]]) < Dist(P[i], cc[asg[i]]) THEN 3 - asg[i] ELSE asg[i]
Tied(i) == Dist(P[i], cc[3 - asg[i]]) = Dist(P[i], cc[asg[i]])
SetSum(S, d) == SumFun([i \in S |-> P[i][d]], S)
MeanOf(S) == [d \in Dims |-> SetSum(S, d) \div Cardinality(S)]

\* a lap of the run; with exact ties (which rounding errors may decide either
\* way) there is no telling
Lap ==
    /\ stage = "revolve" /\ laps < Laps
    /\ LET to == [i \in 1..N |-> NewGroup(i)]
           s1 == { i \in 1..N : to[i] = 1 }
           s2 == { i \in 1..N : to[i] = 2 }
       IN IF (\E i \in 1..N : Tied(i)) \/ s1 = {} \/ s2 = {}
          THEN stage' = "end" /\ UNCHANGED <<asg, cc>>
          ELSE /\ to # asg          \* it doesn't settle
               /\ asg' = to /\ cc' = <<MeanOf(s1), MeanOf(s2)>> /\ stage' = stage
    /\ laps' = laps + 1 /\ UNCHANGED <<tr, g, seen>>

TEnd == stage = "revolve" /\ laps = Laps /\ stage' = "end" /\ UNCHANGED <<tr, g, seen, asg, cc, laps>>

TNext == Group \/ Judge \/ Lap \/ TEnd \/ (stage = "end" /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
TView == <<tr, g, stage, laps>>
==============================================================================
