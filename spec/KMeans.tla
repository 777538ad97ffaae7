-------------------------------- MODULE KMeans --------------------------------
(* Clustering as the code does it: the points are cut into k chunks, then all
   the points move to the closest centre and the centres become the means of
   their points, until nothing moves anymore.
     - a centre only looks at the nearest other centres (at least the integer
       square root of k of them), and stops early on distance arguments;
     - the mean may be rounded down: then the groups can revolve forever, and
       the run stops after Patience iterations without improvement;
     - an empty group is given some point of a group of at least two as its
       centre, and the run goes on;
     - a run that stops while there are empty groups first gives a point to each
       (Fills; without this, the groups aren't as many as they should be).
   All the arithmetic is exact: a centre is a vector of sums and a divisor. *)
EXTENDS Common

CONSTANTS
    PointSeqs,   \* the inputs: sequences of distinct points (tuples of naturals)
    MaxK,
    Rounded,     \* BOOLEAN: are means rounded down?
    Ties,        \* BOOLEAN: may a point move to a centre that is just as close? (the
                 \* code compares floating point square roots: a tie can go either way)
    Patience,    \* 0: none
    Fills        \* BOOLEAN: are empty groups filled when giving up?

VARIABLES
    pts, k,
    groups,      \* groups[g]: the sequence of the indices of its points
    cen,         \* cen[g] = <<sums, divisor>>
    phase,       \* "assign", "update", "done"
    changed, useless, best,
    moved        \* has any point ever changed group?

vars == <<pts, k, groups, cen, phase, changed, useless, best, moved>>

N == Len(pts)
Dims == 1..Len(pts[1])

RECURSIVE SumOver(_, _, _)
\* sum of coordinate d of the points of a group
SumOver(g, d, i) == IF i > Len(g) THEN 0 ELSE pts[g[i]][d] + SumOver(g, d, i + 1)
Mean(g) ==
    IF Rounded THEN << [d \in Dims |-> SumOver(g, d, 1) \div Len(g)], 1 >>
               ELSE << [d \in Dims |-> SumOver(g, d, 1)], Len(g) >>
AtPoint(i) == << pts[i], 1 >>

Sq(x) == x * x
RECURSIVE SumSq(_, _)
SumSq(f, d) == IF d = 0 THEN 0 ELSE Sq(f[d]) + SumSq(f, d - 1)

\* squared distances, as fractions <<numerator, denominator>>
DistPC(i, c) == << SumSq([d \in Dims |-> pts[i][d] * c[2] - c[1][d]], Len(pts[1])), Sq(c[2]) >>
DistCC(a, b) == << SumSq([d \in Dims |-> a[1][d] * b[2] - b[1][d] * a[2]], Len(pts[1])), Sq(a[2] * b[2]) >>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
LessEq(x, y) == x[1] * y[2] <= y[1] * x[2]
Times4(x) == << 4 * x[1], x[2] >>

(* the initial chunks: the last N/k points, those before, ..., the rest *)
Chunk(n, kk, g) ==
    LET c == n \div kk
        hi == n - (g - 1) * c
        lo == IF g = kk THEN 1 ELSE hi - c + 1
    IN [i \in 1..hi - lo + 1 |-> lo + i - 1]

Init ==
    /\ pts \in PointSeqs
    /\ \E n \in 1..MaxK : k = Min2(n, Len(pts))
    /\ groups = [g \in 1..k |-> Chunk(Len(pts), k, g)]
    /\ cen = [g \in 1..k |-> AtPoint(groups[g][1])]
    /\ phase = "assign" /\ changed = TRUE /\ useless = 0 /\ best = -1 /\ moved = FALSE

(* the centres that g looks at: any nearest ones *)
RootK == CHOOSE r \in 0..k : r * r <= k /\ (r + 1) * (r + 1) > k
NeighbourSets(g) ==
    { S \in SUBSET ((1..k) \ {g}) :
        /\ Cardinality(S) >= Min2(RootK, k - 1)
        /\ \A a \in S, b \in (1..k) \ (S \cup {g}) : LessEq(DistCC(cen[g], cen[a]), DistCC(cen[g], cen[b])) }

\* with its two shortcuts
Candidates(i, g, S) ==
    LET d0 == DistPC(i, cen[g])
        sure == S # {} /\ \A h \in S : LessEq(Times4(d0), DistCC(cen[g], cen[h]))
    IN IF sure THEN {} ELSE { h \in S : LessEq(DistCC(cen[g], cen[h]), Times4(d0)) }

\* the groups that point i of group g may go to
Targets(i, g, S) ==
    LET C == Candidates(i, g, S)
        nearest == { h \in C \cup {g} : \A x \in C \cup {g} : LessEq(DistPC(i, cen[h]), DistPC(i, cen[x])) }
    IN IF g \in nearest /\ ~Ties THEN {g} ELSE nearest

GroupOf(i) == CHOOSE g \in 1..k : \E j \in 1..Len(groups[g]) : groups[g][j] = i

RECURSIVE Collect(_, _)
\* all the points in the order in which they are looked at
Collect(gs, g) == IF g > Len(gs) THEN << >> ELSE gs[g] \o Collect(gs, g + 1)

RECURSIVE ErrorSum(_, _)
\* the sum of the squared distances, times 3600 (a multiple of the squares up to 36)
ErrorSum(to, i) == IF i = 0 THEN 0 ELSE LET d == DistPC(i, cen[to[i]]) IN (d[1] * 3600) \div d[2] + ErrorSum(to, i - 1)

Assign ==
    /\ phase = "assign"
    /\ LET of == TLCEval([i \in 1..N |-> GroupOf(i)])
           \* each point for itself: more behaviours than with one choice for each group
           nbs == TLCEval([g \in 1..k |-> NeighbourSets(g)])
           targets == TLCEval([i \in 1..N |-> UNION { Targets(i, of[i], S) : S \in nbs[of[i]] }])
           order == Collect(groups, 1)
       IN \E to \in { f \in [1..N -> 1..k] : \A i \in 1..N : f[i] \in targets[i] } :
                 /\ groups' = [g \in 1..k |-> SelectSeq(order, LAMBDA i : to[i] = g)]
                 /\ changed' = (\E i \in 1..N : to[i] # of[i])
                 /\ moved' = (moved \/ changed')
                 /\ LET e == ErrorSum(to, N) IN
                    IF best < 0 \/ e < best THEN best' = e /\ useless' = 0
                    ELSE best' = best /\ useless' = IF Patience = 0 THEN 0 ELSE useless + 1
    /\ phase' = "update"
    /\ UNCHANGED <<pts, k, cen>>

Empty == { g \in 1..k : groups[g] = << >> }

GivesUp == Patience > 0 /\ useless >= Patience

\* a point of the largest group to each empty one, in turn
RECURSIVE Filled(_, _)
Filled(gs, g) ==
    IF g > k THEN gs
    ELSE IF gs[g] # << >> THEN Filled(gs, g + 1)
    ELSE LET big == CHOOSE h \in 1..k : \A x \in 1..k : Len(gs[x]) <= Len(gs[h]) /\ (Len(gs[x]) = Len(gs[h]) => x <= h)
         IN Filled([gs EXCEPT ![g] = << gs[big][Len(gs[big])] >>, ![big] = SubSeq(gs[big], 1, Len(gs[big]) - 1)], g + 1)

Update ==
    /\ phase = "update"
    /\ IF GivesUp /\ Empty # {} /\ Fills
       THEN /\ groups' = Filled(groups, 1)
            /\ cen' = [g \in 1..k |-> Mean(groups'[g])]
       ELSE /\ UNCHANGED groups
            /\ \E steal \in [Empty -> 1..N] :
                 /\ \A g \in Empty : Len(groups[GroupOf(steal[g])]) >= 2
                 /\ cen' = [g \in 1..k |-> IF g \in Empty THEN AtPoint(steal[g]) ELSE Mean(groups[g])]
    /\ phase' = IF (changed \/ Empty # {}) /\ ~GivesUp THEN "assign" ELSE "done"
    /\ UNCHANGED <<pts, k, changed, useless, best, moved>>

Done == phase = "done" /\ UNCHANGED vars

Next == Assign \/ Update \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Assign \/ Update)

(* The guarantees *)
Partition ==
    /\ Len(groups) = k
    /\ \A i \in 1..N : Cardinality({ <<g, j>> \in (1..k) \X (1..N) : IF j > Len(groups[g]) THEN FALSE ELSE groups[g][j] = i }) = 1
CentresAreMeans ==
    phase = "done" => \A g \in 1..k : groups[g] # << >> => cen[g] = Mean(groups[g])
Alone == phase = "done" /\ k = N => \A g \in 1..k : Len(groups[g]) = 1
NoneEmpty == phase = "done" => Empty = {}
Unsettled ==
    \E i \in 1..N, h \in 1..k : Less(DistPC(i, cen[h]), DistPC(i, cen[GroupOf(i)]))
SettledPair ==
    phase = "done" /\ k = 2 /\ moved /\ Empty = {} /\ ~GivesUp => ~Unsettled
\* there is always a point to give to an empty group
CanReseed == Empty # {} => \E g \in 1..k : Len(groups[g]) >= 2
\* exact means: the shortcuts lose nothing of the groups looked at
ShortcutsExact ==
    phase = "assign" => \A g \in 1..k, i \in 1..N : GroupOf(i) = g =>
        \A S \in NeighbourSets(g) :
            LET full == { h \in S : Less(DistPC(i, cen[h]), DistPC(i, cen[g])) }
            IN full # {} => \E h \in Targets(i, g, S) : \A x \in full : LessEq(DistPC(i, cen[h]), DistPC(i, cen[x]))
Terminates == <>(phase = "done")
==============================================================================
