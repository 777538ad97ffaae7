--------------------------- MODULE TraversalTrace ---------------------------
(* Recorded traversals.

   trace = [w, h, kind |-> "walk" (of the grid w x h), "small" or "large" (of
            the image w x h), path |-> pixels from 1 in the raster order of the
            image (of the grid),
            inv |-> for each pixel of the area its position in path,
            around |-> for "large": the recorded walk of the square around, and
            pos |-> where in it the pixels of path are] *)
EXTENDS Traversal, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, p, q
vars == <<tr, p, q>>
T == Traces[tr]

\* The area a walk covers
AW == IF T.kind = "small" THEN Inside(T.w, T.h) ELSE T.w
AH == IF T.kind = "small" THEN Inside(T.w, T.h) ELSE T.h
Area == AW * AH
\* the pixel k of the area in the raster order of the image
At(k) == ((k - 1) \div AW) * T.w + ((k - 1) % AW) + 1

TInit == tr \in 1..Len(Traces) /\ p = -1 /\ q = 0

Begin ==
    /\ p = -1
    /\ Len(T.path) = Area /\ Len(T.inv) = Area
    /\ T.kind # "large" => T.path[1] = 1
    /\ T.kind = "large" => Len(T.around) = SqrInt(Around(T.w, T.h))
    /\ p' = 0 /\ UNCHANGED <<tr, q>>

Batch == 256
\* Every pixel has a place of its own in the path, and each is a step from the next
Walk ==
    /\ p >= 0 /\ p < Area
    /\ LET path == T.path  inv == T.inv  e == Min2(p + Batch, Area) IN
        /\ Holds(\A k \in p + 1..e : inv[k] \in 1..Area /\ path[inv[k]] = At(k))
        /\ Holds(\A k \in p + 1..e : k < Area /\ T.kind # "large" => Adjacent(T.w, path[k], path[k + 1]))
        /\ p' = e /\ UNCHANGED <<tr, q>>

\* The large variant: where the pixels come in the walk of the square around.
\* (All the pixels are there once, so that nothing of this walk is left out
\* but what is outside of the image.)
S == Around(T.w, T.h)
Follow ==
    /\ T.kind = "large" /\ p >= Area /\ q < Area
    /\ LET path == T.path  pos == T.pos  around == T.around  w == T.w  e == Min2(q + Batch, Area) IN
        /\ Holds(\A k \in q + 1..e :
              /\ pos[k] \in 1..Len(around)
              /\ around[pos[k]] = PY(w, path[k]) * S + PX(w, path[k]) + 1
              /\ k < Area => pos[k] < pos[k + 1])
        /\ q' = e /\ UNCHANGED <<tr, p>>

End == /\ p >= Area /\ q = (IF T.kind = "large" THEN Area ELSE 0)
       /\ UNCHANGED vars
TNext == Begin \/ Walk \/ Follow \/ End
TSpec == TInit /\ [][TNext]_vars
=============================================================================
