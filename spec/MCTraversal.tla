----------------------------- MODULE MCTraversal -----------------------------
(* All the walks over small grids. Every one that covers the grid is a
   permutation in unit steps; some walk covers each grid; and the large variant
   of a covering walk shows every pixel of the image once. *)
EXTENDS Traversal
CONSTANTS MaxW, MaxH
VARIABLES w, h, path
vars == <<w, h, path>>

Init == w \in 1..MaxW /\ h \in 1..MaxH /\ path = <<1>>
Visited == { path[k] : k \in 1..Len(path) }
Next ==
    /\ \E j \in 1..w * h : j \notin Visited /\ Adjacent(w, path[Len(path)], j) /\ path' = Append(path, j)
    /\ UNCHANGED <<w, h>>
Spec == Init /\ [][Next]_vars

Done == Len(path) = w * h
NoneTwice == Cardinality(Visited) = Len(path)
UnitSteps == \A k \in 1..Len(path) - 1 : Adjacent(w, path[k], path[k + 1])
Covers == Done => Visited = 1..w * h
\* what an image of dimensions a x b inside of this square shows of the walk
Shown(a, b) == SelectSeq(path, LAMBDA i : PX(w, i) < a /\ PY(w, i) < b)
LargeVariant ==
    Done /\ w = h =>
        \A a \in 1..w, b \in 1..h : Around(a, b) = w => Len(Shown(a, b)) = a * b
SmallVariant == \A a, b \in 1..20 :
    LET s == Inside(a, b) IN s <= a /\ s <= b /\ (2 * s > a \/ 2 * s > b)
\* To be refuted: some walk does cover each grid
Stuck == ~(Done /\ w = MaxW /\ h = MaxH)
==============================================================================
