------------------------------ MODULE DumpTrace ------------------------------
(* The files that --special=hilbert wrote.

   trace = [w, h, px, code |-> "ok" or how the command ended,
            walk, inner, around |-> recorded walks of the image, the square
            inside and the square around it, inv |-> places of the pixels in walk,
            pos |-> places in around of the pixels of the image, in order,
            files |-> << [name |-> "rect", "small" or "large", head |-> 1 when the
                first line is red,green,blue, junk |-> number of lines that are no
                colours, rows |-> packed colours] >> in this order,
            others |-> number of files that no image has asked for] *)
EXTENDS Dump, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, f, k
vars == <<tr, f, k>>
T == Traces[tr]
Area == T.w * T.h
In == Inside(T.w, T.h)
Out == Around(T.w, T.h)
Batch == 256

TInit == tr \in 1..Len(Traces) /\ f = 0 /\ k = 0

Begin ==
    /\ f = 0
    /\ T.code = "ok" /\ T.others = 0
    /\ Len(T.px) = Area
    /\ [i \in 1..Len(T.files) |-> T.files[i].name] = <<"rect", "small", "large">>
    /\ \A i \in 1..3 : T.files[i].head = 1 /\ T.files[i].junk = 0
    /\ Len(T.walk) = Area /\ Len(T.inner) = In * In /\ Len(T.around) = Out * Out
    /\ Len(T.files[1].rows) = Area /\ Len(T.files[2].rows) = In * In /\ Len(T.files[3].rows) = Area
    /\ f' = 1 /\ UNCHANGED <<tr, k>>

\* k: lines read
Rect ==
    /\ f = 1 /\ k < Area
    /\ LET rows == T.files[1].rows  px == T.px  walk == T.walk  inv == T.inv  e == Min2(k + Batch, Area) IN
        /\ Holds(\A i \in k + 1..e : rows[i] = px[walk[i]])
        /\ Holds(\A i \in k + 1..e : inv[i] \in 1..Area /\ walk[inv[i]] = i)
        /\ k' = e
    /\ UNCHANGED <<tr, f>>
Small ==
    /\ f = 2 /\ k < In * In
    /\ LET rows == T.files[2].rows  px == T.px  walk == T.inner  w == T.w  s == In  e == Min2(k + Batch, In * In) IN
        /\ Holds(\A i \in k + 1..e : rows[i] = px[InImage(w, s, walk[i])])
        /\ k' = e
    /\ UNCHANGED <<tr, f>>
\* pos[k]: where in the walk around the image its pixels come. (The walk has each
\* pixel once: with as many lines as pixels nothing is left out.)
Large ==
    /\ f = 3 /\ k < Area
    /\ LET rows == T.files[3].rows  px == T.px  around == T.around  pos == T.pos  w == T.w  h == T.h  s == Out  e == Min2(k + Batch, Area) IN
        /\ Holds(\A i \in k + 1..e :
              /\ pos[i] \in 1..Len(around)
              /\ IsInImage(w, h, s, around[pos[i]])
              /\ rows[i] = px[InImage(w, s, around[pos[i]])]
              /\ i < Area => pos[i] < pos[i + 1])
        /\ k' = e
    /\ UNCHANGED <<tr, f>>
NextFile ==
    \/ f = 1 /\ k = Area /\ f' = 2 /\ k' = 0 /\ UNCHANGED <<tr>>
    \/ f = 2 /\ k = In * In /\ f' = 3 /\ k' = 0 /\ UNCHANGED <<tr>>
End == f = 3 /\ k = Area /\ UNCHANGED vars
TNext == Begin \/ Rect \/ Small \/ Large \/ NextFile \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
