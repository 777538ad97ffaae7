------------------------------- MODULE Metrics -------------------------------
(* The measures of a benchmark row, by a machine that goes through the kinds of
   pixel pairs (original colour, shown colour, number of such pixels) and
   sums up their squared distances exactly.

   A row is right when
     size  = the number of bytes written
     ratio = 100 * size / (24 * number of pixels)
     error = sum of squared distances / number of pixels
   up to the rounding of double precision. *)
EXTENDS Decimal

DistSqRgb(a, b) == SqrInt(a[1] - b[1]) + SqrInt(a[2] - b[2]) + SqrInt(a[3] - b[3])

RECURSIVE SumFrom(_, _, _, _)
SumFrom(cells, i, e, s) ==
    IF i > e THEN s ELSE SumFrom(cells, i + 1, e, Add(s, cells[i].n, DistSqRgb(cells[i].a, cells[i].b)))

RECURSIVE SumOver(_, _, _)
SumOver(cells, i, e) == IF i > e THEN 0 ELSE cells[i].n + SumOver(cells, i + 1, e)

\* size: an integer; px: number of pixels; digits: of the printed ratio, 12 of them before the point.
\* 24 * px may be too large for TLC: the division is made in two steps
RatioRight(size, px, digits) == Close(Quot(DigitsOf(size, 10) \o <<0, 0>>, 24, 30), px, digits)
\* sum: in two limbs; digits: of the printed error, 16 of them before the point
ErrorRight(sum, px, digits) == Close(DigitsOf2(sum[1], sum[2]), px, digits)
==============================================================================
