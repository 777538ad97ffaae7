------------------------------- MODULE Common -------------------------------
(* Helpers shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
\* Has TLC evaluate p as an expression (a long conjunction within an action
\* would otherwise exhaust its stack)
Holds(p) == p = TRUE

Abs(a) == IF a < 0 THEN -a ELSE a
SqrInt(a) == a * a

\* All sequences over S of length at most n
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE SumFun(_, _)
\* Sum of f[x] over the finite set S
SumFun(f, S) == IF S = {} THEN 0
                ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFun(f, S \ {x})

\* Little-endian integers inside a byte sequence
LE16(s, p) == s[p] + 256 * s[p + 1]
LE32(s, p) == s[p] + 256 * (s[p + 1] + 256 * (s[p + 2] + 256 * s[p + 3]))
SLE16(s, p) == LET v == LE16(s, p) IN IF v >= 32768 THEN v - 65536 ELSE v

Bit(byte, k) == (byte \div (2 ^ (7 - k))) % 2        \* k = 0 is the most significant
=============================================================================
