------------------------------ MODULE Traversal ------------------------------
(* A traversal of a w x h grid: a walk from the corner (0,0), one step up,
   down, left or right at a time, over pixels not visited yet, until none is
   left. Which of these walks is taken is left open.

   The variants for images: "rect" walks over the image itself, "small" over
   the largest power-of-two square that fits at its corner, "large" shows the
   pixels of the image in the order of a walk over the smallest power-of-two
   square that contains it. *)
EXTENDS Common

\* Pixels are numbered from 1 in raster order
PX(w, i) == (i - 1) % w
PY(w, i) == (i - 1) \div w
Adjacent(w, i, j) == Abs(PX(w, i) - PX(w, j)) + Abs(PY(w, i) - PY(w, j)) = 1

RECURSIVE Power(_, _)
\* The largest power of two at most m, starting from p
Power(p, m) == IF 2 * p > m THEN p ELSE Power(2 * p, m)
Inside(w, h) == Power(1, Min2(w, h))
RECURSIVE Above(_, _)
Above(p, m) == IF p >= m THEN p ELSE Above(2 * p, m)
Around(w, h) == Above(1, Max2(w, h))
==============================================================================
