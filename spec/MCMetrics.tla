------------------------------ MODULE MCMetrics ------------------------------
(* The machine of Metrics on all pairs of tiny images: the sum over the kinds of
   pairs is the one over the pixels, the numbers that a correct program prints
   are accepted, and those of programs with typical mistakes are not. *)
EXTENDS Metrics
CONSTANTS MaxPixels, Sizes
VARIABLES orig, shown, size
vars == <<orig, shown, size>>

Colors == { <<0, 0, 0>>, <<255, 0, 1>>, <<0, 1, 0>>, <<254, 255, 255>> }
Init == \E n \in 1..MaxPixels : orig \in [1..n -> Colors] /\ shown = orig /\ size \in Sizes
Next == \E i \in 1..Len(orig), c \in Colors : shown' = [shown EXCEPT ![i] = c] /\ UNCHANGED <<orig, size>>
Spec == Init /\ [][Next]_vars

Px == Len(orig)
Kinds == { <<orig[i], shown[i]>> : i \in 1..Px }
RECURSIVE CellsOf(_)
CellsOf(K) == IF K = {} THEN << >>
              ELSE LET x == CHOOSE y \in K : TRUE
                   IN <<[a |-> x[1], b |-> x[2], n |-> Cardinality({ i \in 1..Px : <<orig[i], shown[i]>> = x })]>> \o CellsOf(K \ {x})
Cells == CellsOf(Kinds)
Sum == SumFrom(Cells, 1, Len(Cells), <<0, 0>>)
Total == Sum[1] * 1000000 + Sum[2]
RECURSIVE Direct(_)
Direct(i) == IF i = 0 THEN 0 ELSE DistSqRgb(orig[i], shown[i]) + Direct(i - 1)
SameSum == Total = Direct(Px) /\ SumOver(Cells, 1, Len(Cells)) = Px

RECURSIVE Expand(_, _, _, _)
Expand(a, b, r, n) == IF n = 0 THEN << >> ELSE <<(10 * r) \div b>> \o Expand(a, b, (10 * r) % b, n - 1)
Zeros(k) == [i \in 1..k |-> 0]
Printed(a, b, w) == Zeros(w - 10) \o DigitsOf(a \div b, 10) \o Expand(a, b, a % b, 20)

RightAccepted == /\ ErrorRight(Sum, Px, Printed(Total, Px, 16))
                 /\ RatioRight(size, Px, Printed(100 * size, 24 * Px, 12))
RECURSIVE Manhattan(_)
Manhattan(i) == IF i = 0 THEN 0 ELSE Abs(orig[i][1] - shown[i][1]) + Abs(orig[i][2] - shown[i][2]) + Abs(orig[i][3] - shown[i][3]) + Manhattan(i - 1)
WrongRejected ==
    /\ Total # 0 => ~ErrorRight(Sum, Px, Printed(Total, 3 * Px, 16)) /\ ~ErrorRight(Sum, Px, Printed(Total, Px + 1, 16))
    /\ Manhattan(Px) # Total => ~ErrorRight(Sum, Px, Printed(Manhattan(Px), Px, 16))
    /\ ~ErrorRight(Sum, Px, Printed(Total + 1, Px, 16))
    /\ ~RatioRight(size, Px, Printed(100 * size, 3 * Px, 12))
    /\ ~RatioRight(size, Px, Printed(size, 24 * Px, 12))
    /\ ~RatioRight(size, Px, Printed(100 * (size + 1), 24 * Px, 12))
==============================================================================
