---------------------------- MODULE ClusterColors ----------------------------
(* Colour reduction: the distinct colours of an image, with their numbers of
   pixels, are split into at most n groups, and every pixel shows the mean of
   its group, weighted and rounded down channel by channel.

   Any split into groups is a behaviour (which one is chosen is the business of
   KMeans). Colours are sequences of channels. *)
EXTENDS Common

CONSTANTS Colours, MaxCount, MaxGroups

VARIABLES
    count,      \* count[c]: pixels of colour c (0: none)
    n,          \* groups asked for
    group,      \* group[c] for the colours of the image
    shown       \* shown[c]: the colour that replaces c

vars == <<count, n, group, shown>>

Present == { c \in Colours : count[c] > 0 }
Channels == DOMAIN (CHOOSE c \in Colours : TRUE)

WeightOf(S) == SumFun([c \in S |-> count[c]], S)
ChannelSum(S, ch) == SumFun([c \in S |-> count[c] * c[ch]], S)
MeanColour(S) == [ch \in Channels |-> ChannelSum(S, ch) \div WeightOf(S)]

Init ==
    /\ count \in [Colours -> 0..MaxCount] /\ \E c \in Colours : count[c] > 0
    /\ n \in 1..MaxGroups
    /\ group = << >> /\ shown = << >>

Split ==
    /\ group = << >>
    /\ \E f \in [Present -> 1..Min2(n, Cardinality(Present))] :
         \* with as many groups as colours, each is alone
         /\ n >= Cardinality(Present) => \A a, b \in Present : a # b => f[a] # f[b]
         /\ group' = f
    /\ UNCHANGED <<count, n, shown>>

Reduce ==
    /\ group # << >> /\ shown = << >>
    /\ shown' = [c \in Present |-> MeanColour({ d \in Present : group[d] = group[c] })]
    /\ UNCHANGED <<count, n, group>>

Next == Split \/ Reduce
Spec == Init /\ [][Next]_vars

(* The guarantees *)
ShownBy(s) == { c \in Present : shown[c] = s }
Done == shown # << >>
AtMostN == Done => Cardinality({ shown[c] : c \in Present }) <= n
\* also when the means of several groups fall together
EachIsTheMean == Done => \A c \in Present : shown[c] = MeanColour(ShownBy(shown[c]))
ExactWhenEnough == Done /\ n >= Cardinality(Present) => \A c \in Present : shown[c] = c
InRange == Done => \A c \in Present, ch \in Channels :
    /\ \E d \in Present : d[ch] <= shown[c][ch]
    /\ \E d \in Present : d[ch] >= shown[c][ch]
==============================================================================
