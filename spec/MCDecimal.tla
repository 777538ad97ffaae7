------------------------------ MODULE MCDecimal ------------------------------
(* The arithmetic of Decimal checked on small numbers: the expansion of x / y
   to n digits is recognised as such, and that of another quotient is not. *)
EXTENDS Decimal
CONSTANTS MaxA, MaxB
VARIABLES x, y
vars == <<x, y>>
Init == x \in 0..MaxA /\ y \in 1..MaxB
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE Expand(_, _, _, _)
Expand(a, b, r, n) == IF n = 0 THEN << >> ELSE <<(10 * r) \div b>> \o Expand(a, b, (10 * r) % b, n - 1)
Digits(a, b) == DigitsOf(a \div b, 6) \o Expand(a, b, a % b, 20)
Recognised == Close(DigitsOf(x, 6), y, Digits(x, y))
\* also when the last digit was rounded up
Others == \A a \in {x - 1, x + 1, x + 7, 2 * x + 1, 10 * x, x \div 10}, b \in {y, y + 1, 10 * y} :
    a >= 0 /\ a * y # x * b => ~Close(DigitsOf(x, 6), y, Digits(a, b))
Sums == LET s == Add(Add(<<0, 0>>, x * 1001, 195075), y * 997, y)
            t == Add(<<0, 999999>>, x + 999 * y, 40 * y)
        IN /\ (x * 1001 < 10000) => s[1] * 1000000 + s[2] = x * 1001 * 195075 + y * 997 * y
           /\ t[1] * 1000000 + t[2] = 999999 + (x + 999 * y) * 40 * y
           /\ s[2] < 1000000 /\ t[2] < 1000000
==============================================================================
