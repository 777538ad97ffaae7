------------------------------ MODULE MCKMeans ------------------------------
EXTENDS KMeans
CONSTANTS Kind, Side, Depth, MaxPoints
\* all the orders of all the sets of up to MaxPoints points of a Side^Depth grid
Grid == [1..Depth -> 0..Side - 1]
SmallSeqs(max) == { s \in UNION { [1..n -> Grid] : n \in 1..max } : \A i, j \in 1..Len(s) : i < j => s[i] # s[j] }
\* all the images of w x h pixels with colours from {0,1}^3, as the Voronoi codec sees them
ImageSeqs(w, h) ==
    { [i \in 1..w * h |-> <<(i - 1) % w, (i - 1) \div w, f[i][1], f[i][2], f[i][3]>>] :
        f \in [1..w * h -> (0..1) \X (0..1) \X (0..1)] }
\* an image on which the codec once ran forever
Revolving(x) == { << <<0, 0, 0, 0, 1>>, <<1, 0, 1, 1, 0>>, <<0, 1, 1, 1, 1>>, <<1, 1, 0, 1, 1>>, <<0, 2, 1, 0, 0>>, <<1, 2, 1, 1, 0>> >> }
\* an image for which a group may be empty when the run gives up
Emptied(x) == { << <<0, 0, 0, 0, 0>>, <<1, 0, 0, 0, 1>>, <<0, 1, 0, 0, 1>>, <<1, 1, 0, 0, 0>> >> }
Inputs ==
    CASE Kind = "grid" -> SmallSeqs(MaxPoints)
      [] Kind = "image" -> ImageSeqs(Side, Depth)
      [] Kind = "revolving" -> Revolving(0)
      [] Kind = "emptied" -> Emptied(0)
=============================================================================
