-------------------------------- MODULE Dump --------------------------------
(* The dump of an image: three files, written line by line along walks
   (see Traversal) over the image, the square inside and the square around.

   px: packed colours of the image in raster order; a walk: pixels numbered
   from 1 in the raster order of its own grid. *)
EXTENDS Traversal

\* pixel i of a square of side s as a pixel of the image
InImage(w, s, i) == PY(s, i) * w + PX(s, i) + 1
IsInImage(w, h, s, i) == PX(s, i) < w /\ PY(s, i) < h
=============================================================================
