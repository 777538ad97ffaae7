------------------------------- MODULE Decimal -------------------------------
(* Decimal numbers as sequences of digits: is a number printed in decimal the
   quotient of two integers, up to the rounding of double precision? Long
   division, one digit at a time; D is the difference of the two numbers so far,
   in units of the last digit. *)
EXTENDS Common

DigitsOf(n, k) == [i \in 1..k |-> (n \div (10 ^ (k - i))) % 10]     \* k <= 10
\* the digits of hi * 10^6 + lo
DigitsOf2(hi, lo) == DigitsOf(hi, 10) \o DigitsOf(lo, 6)

At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

\* (a million of roundings to double precision may take some 10^-10 of a sum)
Significant == 9
RECURSIVE CloseFrom(_, _, _, _, _, _, _)
CloseFrom(a, b, p, i, r, D, sig) ==
    IF D \notin -1..1 THEN FALSE
    ELSE IF sig >= Significant THEN TRUE
    ELSE IF i > Len(a) + 40 THEN D = 0
    ELSE LET x == 10 * r + At(a, i)
             q == x \div b
         IN CloseFrom(a, b, p, i + 1, x % b, 10 * D + q - At(p, i), IF sig > 0 \/ q > 0 THEN sig + 1 ELSE 0)

\* a: digits of an integer, b: an integer (below 2^31 / 10), p: digits of the
\* printed number, the first Len(a) of them before the point
Close(a, b, p) == CloseFrom(a, b, p, 1, 0, 0, 0)

\* The quotient of an integer (given by its digits) by a small one, with k digits after the point
RECURSIVE QuotFrom(_, _, _, _, _)
QuotFrom(a, b, k, i, r) ==
    IF i > Len(a) + k THEN << >>
    ELSE LET x == 10 * r + At(a, i) IN <<x \div b>> \o QuotFrom(a, b, k, i + 1, x % b)
Quot(a, b, k) == QuotFrom(a, b, k, 1, 0)

\* Sums in two limbs <<hi, lo>> (hi * 10^6 + lo): add k * d, for k below 2 * 10^9 and d below 200000
Add(s, k, d) ==
    LET u == k % 1000                \* k = (v * 1000 + m) * 1000 + u
        m == (k \div 1000) % 1000
        v == k \div 1000000
        lo1 == s[2] + u * d                              \* < 10^6 + 2 * 10^8
        md == m * d                                      \* thousands
        lo2 == (md % 1000) * 1000 + (lo1 % 1000000)
    IN <<s[1] + v * d + md \div 1000 + lo1 \div 1000000 + lo2 \div 1000000, lo2 % 1000000>>
==============================================================================
