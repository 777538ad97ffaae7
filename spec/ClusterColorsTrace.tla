------------------------- MODULE ClusterColorsTrace -------------------------
(* Images before and after the real colour reduction, checked against the
   guarantees of ClusterColors.

   trace = [n, w, h, dw, dh |-> dimensions before and after,
            px, dpx |-> packed pixels before and after (empty: only the cells),
            cells |-> << [o, s, k] >>: k pixels of packed colour o show s,
                     in increasing order of s] *)
EXTENDS Common, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, p,
    x,       \* cells summed up
    sum,     \* channel sums of the cells of the colour shown at x
    weight, total
vars == <<tr, p, x, sum, weight, total>>

T == Traces[tr]
C == T.cells
Cells == 1..Len(C)
Chan(v, ch) == IF ch = 1 THEN v \div 65536 ELSE IF ch = 2 THEN (v \div 256) % 256 ELSE v % 256

Shown == { C[i].s : i \in Cells }

Zero == <<0, 0, 0>>
TInit == tr \in 1..Len(Traces) /\ p = 0 /\ x = 0 /\ sum = Zero /\ weight = 0 /\ total = 0

\* the image as a whole
Begin ==
    /\ p = 0
    /\ T.dw = T.w /\ T.dh = T.h
    /\ Cardinality(Shown) <= T.n
    \* equal colours still have equal colours
    /\ Cardinality({ C[i].o : i \in Cells }) = Len(C)
    /\ T.n >= Len(C) => Holds(\A i \in Cells : C[i].s = C[i].o)
    /\ p' = 1 /\ UNCHANGED <<tr, x, sum, weight, total>>

\* the cells tell what the pixels do
Pixels ==
    /\ p = 1
    /\ T.px # << >> =>
         /\ Len(T.px) = T.w * T.h /\ Len(T.dpx) = T.w * T.h
         /\ Holds(\A i \in Cells : Cardinality({ j \in 1..Len(T.px) : T.px[j] = C[i].o /\ T.dpx[j] = C[i].s }) = C[i].k)
    /\ p' = 2 /\ UNCHANGED <<tr, x, sum, weight, total>>

Cell ==
    /\ p = 2 /\ x < Len(C)
    /\ x > 0 => C[x].s = C[x + 1].s
    /\ sum' = [ch \in 1..3 |-> sum[ch] + C[x + 1].k * Chan(C[x + 1].o, ch)]
    /\ weight' = weight + C[x + 1].k /\ total' = total + C[x + 1].k
    /\ x' = x + 1 /\ UNCHANGED <<tr, p>>

\* a colour shown is the mean of what it replaces
IsMean == \A ch \in 1..3 : sum[ch] \div weight = Chan(C[x].s, ch)
Colour ==
    /\ p = 2 /\ 0 < x /\ x < Len(C) /\ C[x].s < C[x + 1].s
    /\ IsMean
    /\ sum' = [ch \in 1..3 |-> C[x + 1].k * Chan(C[x + 1].o, ch)]
    /\ weight' = C[x + 1].k /\ total' = total + C[x + 1].k
    /\ x' = x + 1 /\ UNCHANGED <<tr, p>>

End ==
    /\ p = 2 /\ x = Len(C) /\ IsMean /\ total = T.w * T.h
    /\ p' = 3 /\ UNCHANGED <<tr, x, sum, weight, total>>
TNext == Begin \/ Pixels \/ Cell \/ Colour \/ End \/ (p = 3 /\ UNCHANGED vars)
TSpec == TInit /\ [][TNext]_vars
TView == <<tr, p, x>>
=============================================================================
